/* Parameter storages: appended buffers and nested storages, copies, cleanup, failing allocations, against a model. */
#include "metac/reflect.h"
#include "pbt.h"
#include <errno.h>
const char *pbt_name = "storage";
int pbt_check_leaks = 1;

struct s3 { char c[3]; }; struct s300 { char c[300]; }; typedef unsigned long ul_t;
char g_char; METAC_GSYM_LINK(g_char); int g_int; METAC_GSYM_LINK(g_int); double g_dbl; METAC_GSYM_LINK(g_dbl); struct s3 g_s3; METAC_GSYM_LINK(g_s3); struct s300 g_s300; METAC_GSYM_LINK(g_s300);
ul_t g_ul; METAC_GSYM_LINK(g_ul); char *g_pc; METAC_GSYM_LINK(g_pc); short g_arr[700]; METAC_GSYM_LINK(g_arr); long double g_ld; METAC_GSYM_LINK(g_ld);
void vfn(const char *f, ...) { __builtin_trap(); } METAC_GSYM_LINK(vfn);
int metac_parameter_storage_append_by_parameter_storage(metac_parameter_storage_t *, metac_entry_t *);

enum { MAXP = 24, NS = 4 };
struct st; struct par { metac_entry_t *e; long count; size_t sz; unsigned char *data; struct st *in; };
struct st { metac_parameter_storage_t *s; int n; struct par p[MAXP]; };
static struct st *S[NS];

static metac_entry_t *entry(int i) {
    switch (i) { case 0: return METAC_GSYM_LINK_ENTRY(g_char); case 1: return METAC_GSYM_LINK_ENTRY(g_int); case 2: return METAC_GSYM_LINK_ENTRY(g_dbl); case 3: return METAC_GSYM_LINK_ENTRY(g_s3); case 4: return METAC_GSYM_LINK_ENTRY(g_s300);
        case 5: return METAC_GSYM_LINK_ENTRY(g_ul); case 6: return METAC_GSYM_LINK_ENTRY(g_pc); case 7: return METAC_GSYM_LINK_ENTRY(g_arr); default: return METAC_GSYM_LINK_ENTRY(g_ld); } }
static void wipe(struct st *m) { for (int i = 0; i < m->n; i++) { free(m->p[i].data); if (m->p[i].in) { wipe(m->p[i].in); free(m->p[i].in); } } m->n = 0; }
static void mcopy(const struct st *a, struct st *b) {       /* appends, as the real one */
    for (int i = 0; i < a->n && b->n < MAXP; i++) {
        struct par *q = &b->p[b->n++]; *q = a->p[i];
        if (q->data) { q->data = malloc(q->sz); memcpy(q->data, a->p[i].data, q->sz); }
        if (q->in) { q->in = calloc(1, sizeof(struct st)); mcopy(a->p[i].in, q->in); }
    }
}
static void check(struct st *m, metac_parameter_storage_t *s, int depth) {
    PBT_ASSERT("size", metac_parameter_storage_size(s) == m->n, "the storage has %d parameters, %d expected", (int)metac_parameter_storage_size(s), m->n);
    for (int i = 0; i < m->n; i++) {
        metac_value_t *v = metac_parameter_storage_new_param_value(s, i);
        PBT_ASSERT("item", v != NULL, "parameter %d of %d is missing", i, m->n);
        metac_entry_t *e = metac_value_entry(v); void *a = metac_value_addr(v);
        PBT_ASSERT("addr", a != NULL, "parameter %d has no memory", i);
        if (m->p[i].count < 0) PBT_ASSERT("entry", e == m->p[i].e, "parameter %d has another entry", i);
        else PBT_ASSERT("entry", metac_entry_has_elements(e) && metac_entry_element_count(e) == m->p[i].count && metac_entry_element_entry(e) == (m->p[i].e == entry(6) ? metac_entry_pointer_entry(m->p[i].e) : metac_entry_element_entry(m->p[i].e)), "parameter %d: not an array of %ld", i, m->p[i].count);
        if (m->p[i].in) { PBT_ASSERT("inner", metac_value_has_parameter_load(v) != 0 && metac_value_parameter_count(v) == m->p[i].in->n, "inner storage"); m->p[i].in->s = a; check(m->p[i].in, a, depth + 1); }
        else PBT_ASSERT("bytes", !memcmp(a, m->p[i].data, m->p[i].sz), "the %zu bytes of parameter %d differ", m->p[i].sz, i);
        metac_value_delete(v);
    }
    PBT_ASSERT("beyond", metac_parameter_storage_new_param_value(s, m->n) == NULL && metac_parameter_storage_new_param_value(s, -1) == NULL && metac_parameter_storage_new_param_value(s, m->n + 7) == NULL, "a parameter that was never added");
}
static struct st *some(struct st *m) { for (;;) { int k = m->n ? (int)pbt_choose((uint64_t)m->n + 1) : 0; if (k == m->n || !m->p[k].in) return m; m = m->p[k].in; } }
static bool arm(void) { if (!pbt_chance(1, 6)) return false; pbt_fail_alloc_at((int64_t)pbt_choose(5)); return true; }

void pbt_case(void) {
    metac_entry_t *un = metac_entry_by_paremeter_id(METAC_GSYM_LINK_ENTRY(vfn), 1);
    PBT_ASSERT("null", metac_parameter_storage_size(NULL) == 0, "size of nothing"); metac_parameter_storage_delete(NULL); metac_parameter_storage_cleanup(NULL);
    for (int i = 0; i < NS; i++) { S[i] = calloc(1, sizeof(struct st)); S[i]->s = metac_new_parameter_storage(); PBT_ASSERT("new", S[i]->s != NULL, "no storage"); }
    int steps = 3 + (int)pbt_choose(25), copies = 0, nested = 0;
    for (int k = 0; k < steps; k++) {
        struct st *m = S[pbt_choose(NS)]; int root = (int)(m == S[0] ? 0 : m == S[1] ? 1 : m == S[2] ? 2 : 3);
        switch (pbt_weighted(7, (int[]){8, 3, 3, 3, 1, 1, 1})) {
            case 0: {       /* a buffer */
                struct st *t = some(m); int ei = (int)pbt_choose(9); metac_entry_t *e = entry(ei); metac_size_t sz = 0; metac_entry_byte_size(e, &sz);
                if (t->n >= MAXP) break;
                long count = -1; metac_entry_t *d = NULL;
                if ((ei == 6 || ei == 7) && pbt_bool()) {       /* as many elements as wanted behind a pointer or in an array */
                    count = 1 + (long)pbt_choose(pbt_chance(1, 5) ? 400 : 6); d = metac_new_element_count_entry(e, (metac_num_t)count);
                    PBT_ASSERT("dynamic", d != NULL && metac_entry_is_dynamic(d) != 0 && metac_entry_is_dynamic(e) == 0, "no entry for %ld elements", count);
                    sz = (metac_size_t)(ei == 6 ? 1 : 2) * (metac_size_t)count; metac_size_t z2 = 0;
                    PBT_ASSERT("dynamic", metac_entry_byte_size(d, &z2) == 0 && z2 == sz, "%ld elements are %ld bytes", count, (long)z2);
                } else if (ei < 6) PBT_ASSERT("dynamic", metac_new_element_count_entry(e, 3) == NULL, "elements of something that has none");
                bool f = arm();
                int r = metac_parameter_storage_append_by_buffer(t->s, d ? d : e, (metac_num_t)sz);
                bool hit = pbt_alloc_failed(); pbt_fail_alloc_at(-1);
                if (d) metac_entry_delete(d);
                PBT_ASSERT("append", (r == 0) == !hit, "adding a buffer of %ld bytes gives %d%s", (long)sz, r, hit ? " although an allocation failed" : "");
                pbt_note(" %d:buf(%d,%ld)%s", root, ei, (long)sz, f ? "!" : "");
                if (r == 0) {
                    struct par *q = &t->p[t->n]; q->e = e; q->count = count; q->sz = sz; q->in = NULL; q->data = calloc(1, sz);
                    t->n++; check(S[root], S[root]->s, 0);
                    metac_value_t *v = metac_parameter_storage_new_param_value(t->s, t->n - 1); pbt_bytes(q->data, sz > 64 ? 64 : sz); if (sz > 64) { memset(q->data + 64, (int)pbt_choose(256), sz - 64); q->data[sz - 1] ^= 1; } memcpy(metac_value_addr(v), q->data, sz); metac_value_delete(v);
                } else pbt_label("buffer refused");
                break; }
            case 1: {       /* a nested storage */
                struct st *t = some(m); if (t->n >= MAXP) break;
                arm(); int r = metac_parameter_storage_append_by_parameter_storage(t->s, un); bool hit = pbt_alloc_failed(); pbt_fail_alloc_at(-1);
                PBT_ASSERT("append", (r == 0) == !hit, "adding a storage gives %d", r);
                pbt_note(" %d:nest", root);
                if (r == 0) { struct par *q = &t->p[t->n++]; memset(q, 0, sizeof *q); q->e = un; q->count = -1; q->in = calloc(1, sizeof(struct st)); nested = 1; }
                break; }
            case 2: {       /* a copy, added to what the other one has */
                int j = (int)pbt_choose(NS); if (j == root || S[j]->n + m->n > MAXP) break;
                bool f = pbt_chance(1, 4); if (f) pbt_fail_alloc_at((int64_t)pbt_choose(12));
                int r = metac_parameter_storage_copy(m->s, S[j]->s); bool hit = pbt_alloc_failed(); pbt_fail_alloc_at(-1);
                pbt_note(" copy(%d->%d)%s", root, j, hit ? "!" : "");
                PBT_ASSERT("copy", (r == 0) == !hit, "copying gives %d%s", r, hit ? " although an allocation failed" : "");
                if (r == 0) { mcopy(m, S[j]); copies += m->n > 0; } else { metac_parameter_storage_cleanup(S[j]->s); wipe(S[j]); pbt_label("copy refused"); }
                break; }
            case 3: {       /* write into one parameter: nothing else changes */
                struct st *t = some(m); int i = t->n ? (int)pbt_choose(t->n) : -1; if (i < 0 || !t->p[i].data) break;
                metac_value_t *v = metac_parameter_storage_new_param_value(t->s, i); size_t o = pbt_choose(t->p[i].sz); ((unsigned char *)metac_value_addr(v))[o] ^= 0x5a; t->p[i].data[o] ^= 0x5a; metac_value_delete(v);
                break; }
            case 4: metac_parameter_storage_cleanup(m->s); wipe(m); pbt_note(" clean(%d)", root); break;
            case 5: metac_parameter_storage_delete(m->s); wipe(m); m->s = metac_new_parameter_storage(); PBT_ASSERT("new", m->s != NULL, "no storage"); break;
            default: PBT_ASSERT("bad", metac_parameter_storage_append_by_buffer(m->s, NULL, 4) != 0 && metac_parameter_storage_append_by_buffer(m->s, entry(1), 0) != 0 && metac_parameter_storage_append_by_buffer(NULL, entry(1), 4) != 0, "a parameter without type, size or storage is accepted");
        }
        for (int i = 0; i < NS; i++) check(S[i], S[i]->s, 0);
    }
    if (copies && nested) pbt_nontrivial();
    if (copies) pbt_label("copied"); if (nested) pbt_label("nested");
    for (int i = 0; i < NS; i++) { metac_parameter_storage_delete(S[i]->s); wipe(S[i]); free(S[i]); }
}
