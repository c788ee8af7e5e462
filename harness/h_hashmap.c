/* P: keyed container behaves as a map, for every history */
#include "pbt.h"
#include <errno.h>
#include "metac/backend/hashmap.h"
const char *pbt_name = "hashmap";
int pbt_check_leaks = 1;

#define NKMAX 12000
static int NK;      /* keys of the case */
struct key { int id; int copy; };
static struct key K[NKMAX][2];
static struct { bool has; void *val; } M[NKMAX];
static int mode; static unsigned salt;
static int hf(void *k) {
    unsigned id = (unsigned)((struct key *)k)->id;
    switch (mode) {
    case 0: return (int)id;
    case 1: return 7;
    case 2: return (int)(id % 3);
    case 3: return (int)(id * 2654435761u ^ salt);
    case 4: return -(int)id - 1;
    case 5: return (int)(id << 16);
    default: return hashmapHash(&((struct key *)k)->id, sizeof(int));
    }
}
static bool eq(void *a, void *b) { return ((struct key *)a)->id == ((struct key *)b)->id; }
static size_t model_size(void) { size_t n = 0; for (int i = 0; i < NK; i++) n += M[i].has; return n; }
struct fe { int *seen; int calls; int stop; void *bad; };
static bool cb(void *k, void *v, void *ctx) {
    struct fe *f = ctx; int id = ((struct key *)k)->id; f->calls++;
    if (id < 0 || id >= NK) pbt_fail("foreach", "foreign key %d", id);
    f->seen[id]++;
    if (!M[id].has) pbt_fail("foreach", "visited key %d which is not in the map", id);
    if (M[id].val != v) pbt_fail("foreach", "key %d visited with value %p instead of %p", id, v, M[id].val);
    return f->stop < 0 || f->calls < f->stop;
}
static int memo_calls; static void *memo_val, *memo_key;
static void *memo(void *k, void *ctx) { memo_calls++; memo_key = k; if (ctx != (void *)&memo_calls) pbt_fail("memoize", "context not passed"); return memo_val; }
static void full_check(Hashmap *m, const char *after) {
    PBT_ASSERT("size", hashmapSize(m) == model_size(), "after %s: size %zu, expected %zu", after, hashmapSize(m), model_size());
    for (int i = 0; i < NK; i++) {
        int c = i & 1;
        bool has = hashmapContainsKey(m, &K[i][c]); void *g = hashmapGet(m, &K[i][c]);
        PBT_ASSERT("contains", has == M[i].has, "after %s: contains(%d)=%d expected %d", after, i, has, M[i].has);
        PBT_ASSERT("get", g == (M[i].has ? M[i].val : NULL), "after %s: get(%d)=%p expected %p", after, i, g, M[i].has ? M[i].val : NULL);
    }
    static int seen[NKMAX]; memset(seen, 0, sizeof(int) * NK); struct fe f = {.stop = -1, .seen = seen}; hashmapForEach(m, cb, &f);
    for (int i = 0; i < NK; i++) PBT_ASSERT("foreach", f.seen[i] == M[i].has, "after %s: key %d visited %d times", after, i, f.seen[i]);
}
void pbt_case(void) {
    bool large = pbt_chance(1, 300);
    NK = large ? 500 + (int)pbt_choose(NKMAX - 500) : 160;
    memset(M, 0, sizeof(M[0]) * NK);
    for (int i = 0; i < NK; i++) for (int c = 0; c < 2; c++) K[i][c] = (struct key){i, c};
    mode = (int)pbt_choose(7); salt = (unsigned)pbt_choose(1 << 20);
    if (large) mode = (int[]){0, 3, 4, 6}[pbt_choose(4)];
    static const int caps[] = {0, 1, 2, 3, 5, 8, 16, 48, 100, 600};
    int cap = caps[pbt_choose(10)];
    pbt_note("hash mode %d, capacity %d:", mode, cap);
    int nk = 1 + (int)pbt_choose(NK);
    Hashmap *m = hashmapCreate(cap, hf, eq);
    PBT_ASSERT("create", m != NULL, "create failed");
    int n = (int)pbt_choose(pbt_chance(1,4) ? 500 : 80), removes = 0, fails = 0, grew = 0;
    size_t cap0 = hashmapCurrentCapacity(m);
    if (large) {    /* first many at once; what is left is removed again now and then */
        int from = (int)pbt_choose(NK), to = from + (int)pbt_choose(NK - from + 1), step = 1 + (int)pbt_choose(3);
        pbt_note(" put(%d..%d by %d)", from, to, step);
        for (int i = from; i < to; i += step) { M[i].has = true; M[i].val = (void *)(uintptr_t)(i + 1); PBT_ASSERT("put", hashmapPut(m, &K[i][i & 1], M[i].val, NULL) == 0, "put(%d) failed", i); }
        full_check(m, "many puts");
        if (pbt_bool()) {
            step = 1 + (int)pbt_choose(4);
            for (int i = 0; i < NK; i += step) { void *r = hashmapRemove(m, &K[i][0]); PBT_ASSERT("remove", r == M[i].val, "remove(%d)=%p expected %p", i, r, M[i].val); M[i].has = false; M[i].val = NULL; }
            full_check(m, "many removals");
        }
        pbt_label("thousands of keys");
    }
    for (int s = 0; s < n; s++) {
        int id = (int)pbt_choose(nk), c = (int)pbt_choose(2); struct key *k = &K[id][c];
        static const int w[] = {10, 4, 3, 6, 4, 1, 2};
        int op = pbt_weighted(7, w);
        bool inj = (op == 0 || op == 4) && pbt_chance(1, 8);
        int64_t at = inj ? (int64_t)pbt_choose(2) : -1;
        void *val = pbt_chance(1, 12) ? NULL : (void *)(uintptr_t)(1 + pbt_choose(1000)), *res = (void *)0x55;
        switch (op) {
        case 0: {
            pbt_note(" put(%d,%p%s)", id, val, inj ? ",oom" : "");
            bool old = M[id].has; void *ov = M[id].val; bool want = pbt_choose(8) != 0;
            pbt_fail_alloc_at(at); int r = hashmapPut(m, k, val, want ? &res : NULL); bool failed = pbt_alloc_failed(); pbt_fail_alloc_at(-1);
            if (r == 0) {
                if (want) PBT_ASSERT("put", res == (old ? ov : NULL), "put(%d) reported previous %p, expected %p", id, res, old ? ov : NULL);
                M[id].has = true; M[id].val = val;
            } else {
                PBT_ASSERT("put", failed && r == -ENOMEM, "put(%d) returned %d", id, r);
                if (want) PBT_ASSERT("put", res == NULL, "failed put(%d) left *p_res=%p", id, res);
                fails++;
            }
            break; }
        case 1: { void *g = hashmapGet(m, k); pbt_note(" get(%d)", id); PBT_ASSERT("get", g == (M[id].has ? M[id].val : NULL), "get(%d)=%p", id, g); break; }
        case 2: { bool b = hashmapContainsKey(m, k); pbt_note(" has(%d)", id); PBT_ASSERT("contains", b == M[id].has, "contains(%d)=%d", id, b); break; }
        case 3: {
            void *r = hashmapRemove(m, k); pbt_note(" remove(%d)", id);
            PBT_ASSERT("remove", r == (M[id].has ? M[id].val : NULL), "remove(%d)=%p expected %p", id, r, M[id].has ? M[id].val : NULL);
            if (M[id].has) removes++; M[id].has = false; M[id].val = NULL; break; }
        case 4: {
            pbt_note(" memo(%d,%p%s)", id, val, inj ? ",oom" : "");
            memo_calls = 0; memo_val = val; memo_key = NULL; bool old = M[id].has;
            pbt_fail_alloc_at(at); int r = hashmapMemoize(m, k, memo, &memo_calls, &res); bool failed = pbt_alloc_failed(); pbt_fail_alloc_at(-1);
            if (r == 0) {
                PBT_ASSERT("memoize", memo_calls == !old, "memoize(%d) called initialiser %d times, present=%d", id, memo_calls, old);
                if (!old) { PBT_ASSERT("memoize", memo_key == (void *)k, "initialiser got a different key"); M[id].has = true; M[id].val = val; }
                PBT_ASSERT("memoize", res == M[id].val, "memoize(%d) gave %p expected %p", id, res, M[id].val);
            } else {
                PBT_ASSERT("memoize", failed && r == -ENOMEM && memo_calls == 0, "memoize(%d) returned %d after %d initialiser calls", id, r, memo_calls);
                fails++;
            }
            break; }
        case 5: {
            static int seen[NKMAX]; struct fe f = {.stop = 1 + (int)pbt_choose(6), .seen = seen}; pbt_note(" foreach(stop %d)", f.stop);
            hashmapForEach(m, cb, &f); size_t ms = model_size();
            PBT_ASSERT("foreach", f.calls == (int)((size_t)f.stop < ms ? (size_t)f.stop : ms), "foreach made %d calls (stop %d, size %zu)", f.calls, f.stop, ms);
            break; }
        case 6: PBT_ASSERT("size", hashmapSize(m) == model_size(), "size %zu expected %zu", hashmapSize(m), model_size()); break;
        }
        if (pbt_chance(1, large ? 200 : 25)) full_check(m, "step");
        if (hashmapCurrentCapacity(m) > cap0) grew = 1;
    }
    full_check(m, "end");
    hashmapFree(m);
    int a = (int)pbt_u64(), b = (int)pbt_u64(), a2 = a;
    PBT_ASSERT("int", hashmapIntEquals(&a, &a2) && hashmapIntEquals(&a, &b) == (a == b) && hashmapIntHash(&a) == hashmapIntHash(&a2), "int key helpers on %d,%d", a, b);
    char buf[20], buf2[20]; pbt_bytes(buf, sizeof(buf)); memcpy(buf2, buf, sizeof(buf)); size_t l = pbt_choose(21);
    PBT_ASSERT("hash", hashmapHash(buf, l) == hashmapHash(buf2, l), "hash of equal bytes differs");
    if (grew) pbt_label("grew"); if (removes) pbt_label("removed"); if (fails) pbt_label("allocation failure"); if (mode == 1 || mode == 2) pbt_label("colliding hash");
    if (removes && n >= 10) pbt_nontrivial();
}
