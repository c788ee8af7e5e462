#define _GNU_SOURCE
#include "pbt.h"
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));

#define MAXC 20000
#define NOTESZ (1 << 18)
#define MAXLABELS 128
#define MAXSAMPLES 4
#define MAXHASH (1u << 20)
#define CPU_LIMIT_S 40
static int cpu_limit = CPU_LIMIT_S;
const char *__asan_default_options(void);
const char *__asan_default_options(void) { return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:max_allocation_size_mb=4096"; }

__attribute__((weak)) void pbt_setup(void) {}
__attribute__((weak)) int pbt_check_leaks = 0;

static struct shared {
    uint32_t nc;                 /* recorded choices */
    uint64_t c[MAXC], b[MAXC];
    int overflow;
    char key[256], msg[8192];
    char note[NOTESZ]; uint32_t nnote; int note_on;
    struct { char name[64]; uint64_t n; int mark; } lab[MAXLABELS]; int nlab;
    uint64_t evals, nontriv, cur; int cur_nt;
    uint64_t allocs; int done;
    char sample[MAXSAMPLES][4000]; int nsamples;
    uint32_t nhash; uint64_t hash[MAXHASH];
} *S;

/* replay source */
static uint64_t *rp; static uint32_t rpn; static int replaying;
/* rng */
static uint64_t st[2];
static uint64_t sm(uint64_t *x) { uint64_t z = (*x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static void seed_case(uint64_t seed, uint64_t i) { uint64_t x = seed * 0x100000001b3ull + i * 0x9e3779b97f4a7c15ull + 12345; sm(&x); st[0] = sm(&x); st[1] = sm(&x) | 1; }
static uint64_t rnd(void) { uint64_t s1 = st[0], s0 = st[1]; st[0] = s0; s1 ^= s1 << 23; st[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); return st[1] + s0; }

uint64_t pbt_choose(uint64_t n) {
    uint64_t v;
    if (S->nc >= MAXC) { S->overflow = 1; return 0; }
    if (replaying) { v = S->nc < rpn ? rp[S->nc] : 0; if (n && v >= n) v = n - 1; }
    else v = n ? (((__uint128_t)rnd() * n) >> 64) : rnd();
    S->c[S->nc] = v; S->b[S->nc] = n; S->nc++;
    return v;
}
uint64_t pbt_raw64(void) { return pbt_choose(0); }
uint64_t pbt_u64(void) {
    switch (pbt_choose(6)) {
    case 0: return pbt_choose(17);
    case 1: return (uint64_t)0 - 1 - pbt_choose(17);
    case 2: { uint64_t k = pbt_choose(64); uint64_t d = pbt_choose(3); return ((uint64_t)1 << k) + d - 1; }
    case 3: return pbt_raw64() >> pbt_choose(64);
    case 4: return (uint64_t)0 - (pbt_raw64() >> pbt_choose(64));
    default: return pbt_raw64();
    }
}
void pbt_bytes(void *p, size_t n) { uint8_t *q = p; for (size_t i = 0; i < n; i += 8) { uint64_t v = pbt_raw64(); for (size_t j = 0; j < 8 && i + j < n; j++) q[i + j] = (uint8_t)(v >> (8 * j)); } }
int pbt_weighted(int n, const int *w) { int t = 0; for (int i = 0; i < n; i++) t += w[i]; int64_t x = (int64_t)pbt_choose(t); for (int i = 0; i < n; i++) { if (x < w[i]) return i; x -= w[i]; } return n - 1; }

void pbt_note(const char *fmt, ...) {
    if (!S->note_on || S->nnote >= NOTESZ - 1) return;
    va_list ap; va_start(ap, fmt);
    int r = vsnprintf(S->note + S->nnote, NOTESZ - S->nnote, fmt, ap);
    va_end(ap);
    if (r > 0) { S->nnote += (uint32_t)r; if (S->nnote > NOTESZ - 1) S->nnote = NOTESZ - 1; }
}
void pbt_label(const char *name) {
    int i; for (i = 0; i < S->nlab; i++) if (!strcmp(S->lab[i].name, name)) break;
    if (i == S->nlab) { if (i == MAXLABELS) return; snprintf(S->lab[i].name, sizeof(S->lab[i].name), "%s", name); S->nlab++; }
    if (!S->lab[i].mark) { S->lab[i].mark = 1; S->lab[i].n++; }
}
void pbt_nontrivial(void) { S->cur_nt = 1; }
void pbt_fail(const char *key, const char *fmt, ...) {
    pbt_fail_alloc_at(-1);
    snprintf(S->key, sizeof(S->key), "%s", key);
    va_list ap; va_start(ap, fmt); vsnprintf(S->msg, sizeof(S->msg), fmt, ap); va_end(ap);
    _exit(42);
}

/* ---- heap accounting ---- */
static int64_t live;
static void on_malloc(const volatile void *p, size_t n) { (void)n; if (p) live++; }
static void on_free(const volatile void *p) { if (p) live--; }
int64_t pbt_live_blocks(void) { return live; }

static int64_t fail_at = -1, alloc_n; static bool alloc_failed;
void pbt_fail_alloc_at(int64_t n) { fail_at = n; alloc_n = 0; alloc_failed = false; }
int64_t pbt_alloc_calls(void) { return alloc_n; }
bool pbt_alloc_failed(void) { return alloc_failed; }
static bool inject(void) { if (alloc_n++ == fail_at) { alloc_failed = true; errno = ENOMEM; return true; } return false; }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); char *__real_strdup(const char *);
void *__wrap_malloc(size_t n) { return inject() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return inject() ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return inject() ? NULL : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return inject() ? NULL : __real_strdup(s); }

/* ---- running ---- */
static void one_case(void) {
    S->nc = 0; S->overflow = 0; S->key[0] = S->msg[0] = 0; S->nnote = 0; S->note[0] = 0; S->cur_nt = 0;
    for (int i = 0; i < S->nlab; i++) S->lab[i].mark = 0;
    int64_t before = live;
    struct itimerval tv = {.it_value = {.tv_sec = cpu_limit}}; setitimer(ITIMER_VIRTUAL, &tv, NULL);
    pbt_case();
    struct itimerval z = {0}; setitimer(ITIMER_VIRTUAL, &z, NULL);
    pbt_fail_alloc_at(-1);
    if (pbt_check_leaks && live != before) {
        /* one-off allocations of libc are not a leak: the same case again must show it too */
        static int again;
        if (!again) {
            uint64_t *save = __real_malloc(sizeof(uint64_t) * (S->nc + 1)); uint32_t n = S->nc; memcpy(save, S->c, sizeof(uint64_t) * n);
            uint64_t *orp = rp; uint32_t orpn = rpn; int orep = replaying;
            rp = save; rpn = n; replaying = 1; again = 1; one_case(); again = 0;
            rp = orp; rpn = orpn; replaying = orep; free(save);
        } else pbt_fail("leak", "%lld heap block(s) more than before the case", (long long)(live - before));
    }
}
static uint64_t hashc(void) { uint64_t h = 1469598103934665603ull; for (uint32_t i = 0; i < S->nc; i++) { h ^= S->c[i] + 0x9e3779b9; h *= 1099511628211ull; h ^= h >> 29; } return h; }
static char errpath[256];
static void child_common(void) {
    int fd = open(errpath, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); if (fd > 2) close(fd); }
    int nfd = open("/dev/null", O_WRONLY); if (nfd >= 0) { dup2(nfd, 1); close(nfd); }
    signal(SIGVTALRM, SIG_DFL); signal(SIGABRT, SIG_DFL);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    
#ifndef PBT_NO_ASAN
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif

    pbt_setup();
}
static int run_batch(uint64_t seed, uint64_t from, uint64_t to, double deadline) {
    pid_t p = fork();
    if (p == 0) {
        child_common();
        for (uint64_t i = from; i < to; i++) {
            struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
            if (deadline > 0 && ts.tv_sec > deadline) break;
            S->cur = i; seed_case(seed, i);
            S->note_on = i < 400 && S->nsamples < MAXSAMPLES;
            one_case();
            S->evals++;
            if (S->cur_nt) {
                S->nontriv++;
                if (S->nhash < MAXHASH) S->hash[S->nhash++] = hashc();
                if (S->note_on && S->nnote && S->nsamples < MAXSAMPLES) snprintf(S->sample[S->nsamples++], sizeof(S->sample[0]), "%s", S->note);
            }
        }
        S->done = 1; _exit(0);
    }
    int stt; waitpid(p, &stt, 0); return stt;
}
static int run_one(uint64_t *c, uint32_t n) {
    pid_t p = fork();
    if (p == 0) { child_common(); rp = c; rpn = n; replaying = 1; S->note_on = 1; one_case(); _exit(0); }
    int stt; waitpid(p, &stt, 0); return stt;
}
static void kind_of(int stt, char *out, size_t n) {
    if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) snprintf(out, n, "ok");
    else if (WIFEXITED(stt) && WEXITSTATUS(stt) == 42) snprintf(out, n, "fail:%s", S->key);
    else if (WIFSIGNALED(stt) && WTERMSIG(stt) == SIGVTALRM) snprintf(out, n, "hang");
    else if (WIFSIGNALED(stt) && WTERMSIG(stt) == SIGABRT) snprintf(out, n, "abort");
    else if (WIFSIGNALED(stt) && WTERMSIG(stt) == SIGKILL) snprintf(out, n, "killed");
    else snprintf(out, n, "crash");
}
static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }
static void put_failure(FILE *f, const char *kind, uint64_t *c, uint32_t n) {
    static char err[16384]; int fd = open(errpath, O_RDONLY); ssize_t r = fd >= 0 ? read(fd, err, sizeof(err) - 1) : 0; if (fd >= 0) close(fd); err[r > 0 ? r : 0] = 0;
    fprintf(f, "{\"kind\": "); jstr(f, kind); fprintf(f, ", \"message\": "); jstr(f, S->msg); fprintf(f, ", \"case\": "); jstr(f, S->note); fprintf(f, ", \"stderr\": "); jstr(f, err);
    fprintf(f, ", \"choices\": ["); for (uint32_t i = 0; i < n; i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)c[i]); fprintf(f, "]}");
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

int main(int argc, char **argv) {
    uint64_t seed = 1, cases = 1000, batch = 2000; double tmax = 0; const char *out = NULL, *hashes = NULL, *replay = NULL;
    for (int i = 1; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[i + 1], 0, 10);
        else if (!strcmp(argv[i], "--cases")) cases = strtoull(argv[i + 1], 0, 10);
        else if (!strcmp(argv[i], "--batch")) batch = strtoull(argv[i + 1], 0, 10);
        else if (!strcmp(argv[i], "--tmax")) tmax = atof(argv[i + 1]);
        else if (!strcmp(argv[i], "--out")) out = argv[i + 1];
        else if (!strcmp(argv[i], "--hashes")) hashes = argv[i + 1];
        else if (!strcmp(argv[i], "--replay")) replay = argv[i + 1];
    }
    if (!getenv("PBT_NOASLR")) { setenv("PBT_NOASLR", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    S = mmap(NULL, sizeof(*S), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 3; }
    snprintf(errpath, sizeof(errpath), "%s.stderr", out ? out : "/tmp/pbt");
    char kind[300] = "ok"; static uint64_t best[MAXC]; uint32_t nb = 0;
    if (replay) { /* text file: choices separated by white space */
        FILE *f = fopen(replay, "r"); if (!f) return 3; unsigned long long v; while (nb < MAXC && fscanf(f, "%llu", &v) == 1) best[nb++] = v; fclose(f);
        int stt = run_one(best, nb); kind_of(stt, kind, sizeof(kind));
        FILE *o = out ? fopen(out, "w") : stdout; put_failure(o, kind, best, nb); fprintf(o, "\n"); if (o != stdout) fclose(o);
        return 0;
    }
    double t0 = now(); int failed = 0, cut = 0;
    for (uint64_t i = 0; i < cases;) {
        uint64_t to = i + batch < cases ? i + batch : cases; S->done = 0;
        int stt = run_batch(seed, i, to, tmax > 0 ? t0 + tmax : 0); kind_of(stt, kind, sizeof(kind));
        if (strcmp(kind, "ok")) {
            if (!strcmp(kind, "killed")) { fprintf(stderr, "child killed\n"); return 4; }
            failed = 1; break;
        }
        i = to; if (tmax > 0 && now() - t0 > tmax) { cut = i < cases; break; }
    }
    uint64_t evals = S->evals, nontriv = S->nontriv; uint64_t fcase = S->cur; uint32_t shr = 0;
    struct shared *R = malloc(sizeof(*S)); memcpy(R, S, sizeof(*S));
    if (failed) {
        nb = S->nc; memcpy(best, S->c, nb * sizeof(best[0])); double ts = now();
        static uint64_t cand[MAXC]; char k2[300]; cpu_limit = 10;
        double limit = !strcmp(kind, "hang") ? 0 : 60;
        #define TRY() ({ int ok_ = 0; if (now() - ts < limit && shr < 4000) { shr++; int s_ = run_one(cand, nc_); kind_of(s_, k2, sizeof(k2)); if (!strcmp(k2, kind) && (S->nc < nb || memcmp(S->c, best, sizeof(best[0]) * nb))) { if (S->nc < nb || (S->nc == nb)) { nb = S->nc; memcpy(best, S->c, nb * sizeof(best[0])); ok_ = 1; } } } ok_; })
        int progress = 1;
        while (progress && now() - ts < limit && shr < 4000) {
            progress = 0;
            for (uint32_t len = 64; len >= 1; len /= 2)
                for (uint32_t p = 0; p + len <= nb;) {
                    uint32_t nc_ = nb - len; memcpy(cand, best, p * sizeof(best[0])); memcpy(cand + p, best + p + len, (nb - p - len) * sizeof(best[0]));
                    if (TRY()) progress = 1; else p += len > 8 ? len : 1;
                    if (now() - ts >= limit) break;
                }
            for (uint32_t p = 0; p < nb; p++) {
                if (!best[p]) continue;
                uint32_t nc_ = nb; memcpy(cand, best, nb * sizeof(best[0])); cand[p] = 0; if (TRY()) { progress = 1; continue; }
                uint64_t lo = 0, hi = p < nb ? best[p] : 0; /* lo known not to reproduce */
                for (int it = 0; it < 12 && hi - lo > 1; it++) { uint64_t m = lo + (hi - lo) / 2; nc_ = nb; memcpy(cand, best, nb * sizeof(best[0])); if (p >= nb) break; cand[p] = m; if (TRY()) { progress = 1; hi = p < nb ? best[p] : 0; } else lo = m; }
                if (now() - ts >= limit) break;
            }
        }
        cpu_limit = CPU_LIMIT_S; int stt = run_one(best, nb); char k3[300]; kind_of(stt, k3, sizeof(k3));
        if (strcmp(k3, kind)) { /* not reproducible from the sequence alone */ strncat(kind, " (not reproduced)", sizeof(kind) - strlen(kind) - 1); }
    }
    FILE *o = out ? fopen(out, "w") : stdout; if (!o) return 3;
    fprintf(o, "{\"harness\": "); jstr(o, pbt_name);
    fprintf(o, ", \"seed\": %llu, \"evaluations\": %llu, \"nontrivial\": %llu, \"cut\": %d, \"secs\": %.2f, \"labels\": {", (unsigned long long)seed, (unsigned long long)evals, (unsigned long long)nontriv, cut, now() - t0);
    for (int i = 0; i < R->nlab; i++) { fprintf(o, "%s", i ? ", " : ""); jstr(o, R->lab[i].name); fprintf(o, ": %llu", (unsigned long long)R->lab[i].n); }
    fprintf(o, "}, \"samples\": ["); for (int i = 0; i < R->nsamples; i++) { fprintf(o, "%s", i ? ", " : ""); jstr(o, R->sample[i]); }
    fprintf(o, "], \"failure\": ");
    if (failed) { fprintf(o, "{\"case_index\": %llu, \"shrink_steps\": %u, \"repro\": ", (unsigned long long)fcase, shr); put_failure(o, kind, best, nb); fprintf(o, "}"); } else fprintf(o, "null");
    fprintf(o, "}\n"); if (o != stdout) fclose(o);
    if (hashes) { FILE *h = fopen(hashes, "wb"); if (h) { fwrite(R->hash, 8, R->nhash, h); fclose(h); } }
    unlink(errpath);
    return 0;
}
