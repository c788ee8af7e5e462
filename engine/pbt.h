/* Choice-sequence property-based testing engine (C side).
 *
 * A harness implements pbt_case().  Every random decision goes through
 * pbt_choose() and friends; the engine records the decisions of the running
 * case in shared memory, so that a case which fails, crashes, is stopped by
 * the address sanitizer or never ends can be replayed and shrunk from the
 * parent process by editing the recorded sequence. */
#ifndef PBT_H_
#define PBT_H_
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* --- to be provided by the harness --- */
void pbt_case(void);
extern const char *pbt_name;
/* optional (weak): once per child process before the first case */
void pbt_setup(void);
/* optional (weak int): 1 = a case must leave the number of live heap blocks as it was */
extern int pbt_check_leaks;

/* --- choices --- */
uint64_t pbt_choose(uint64_t n);                 /* [0,n) ; 0 is the simplest */
static inline int64_t pbt_range(int64_t lo, int64_t hi) { return lo + (int64_t)pbt_choose((uint64_t)(hi - lo) + 1); }
static inline bool pbt_bool(void) { return pbt_choose(2) == 1; }
/* true with probability num/den; shrinks towards false */
static inline bool pbt_chance(int num, int den) { return pbt_choose((uint64_t)den) >= (uint64_t)(den - num); }
uint64_t pbt_u64(void);        /* biased towards corners: 0,1,-1, powers of two, small */
uint64_t pbt_raw64(void);      /* uniform */
void pbt_bytes(void *p, size_t n);
int pbt_weighted(int n, const int *w);

/* --- reporting --- */
void pbt_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void pbt_label(const char *name);
void pbt_nontrivial(void);
void pbt_fail(const char *key, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
#define PBT_ASSERT(key, cond, ...) do { if (!(cond)) pbt_fail(key, __VA_ARGS__); } while (0)

/* --- heap accounting (works with -fsanitize=address) --- */
int64_t pbt_live_blocks(void);
/* allocation fault injection: the (n+1)-th malloc/calloc/realloc/strdup from now on made by
   code of the program under test returns NULL; -1 switches it off */
void pbt_fail_alloc_at(int64_t n);
int64_t pbt_alloc_calls(void);   /* calls counted since the last pbt_fail_alloc_at() */
bool pbt_alloc_failed(void);     /* did the injected failure happen */
#endif
