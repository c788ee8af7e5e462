/* Tag maps (PART 1) and tag strings (PART 2) against reference models, tag handlers with all kinds of counters and selectors (PART 3) */
#include "metac/reflect.h"
#include "pbt.h"
#include <errno.h>
#include <complex.h>

#ifndef PART
#define PART 1
#endif
const char *pbt_name = "tag";
int pbt_check_leaks = 1;

#if PART == 1
/* ------------------------------------------------------------------ maps: declarations to be tagged */
typedef int num_t; typedef const num_t cnum_t; typedef char *str_t; typedef struct pair { int x; char *s; cnum_t n; int arr[3]; struct pair *next; union pu { int i; double d; } u; enum pe { PA, PB } e; } pair_t;
int v_int; METAC_GSYM_LINK(v_int);
num_t v_num; METAC_GSYM_LINK(v_num);
volatile cnum_t v_cnum = 1; METAC_GSYM_LINK(v_cnum);
str_t v_str; METAC_GSYM_LINK(v_str);
char *v_chp; METAC_GSYM_LINK(v_chp);
pair_t v_pair; METAC_GSYM_LINK(v_pair);
struct pair *v_ppair; METAC_GSYM_LINK(v_ppair);
double v_dbl; METAC_GSYM_LINK(v_dbl);
void *v_void; METAC_GSYM_LINK(v_void);
int f_one(num_t a, char *s, pair_t *p, double d, const pair_t st, ...) { return a; } METAC_GSYM_LINK(f_one);

enum { C_INT, C_CHP, C_PAIR, C_PPAIR, C_DBL, C_ARR, C_UN, C_EN, C_VOIDP, C_PTPAIR, C_NONE, NC };
enum { K_VAR, K_PAR, K_MEM, K_OTHER };
#define MAXE 48
static struct { metac_entry_t *e; int kind, cls, fin; const char *name; } E[MAXE]; static int ne;
static void add(metac_entry_t *e, int kind, int cls, const char *name) {
    if (!e) { fprintf(stderr, "no entry for %s\n", name); abort(); }
    E[ne].e = e; E[ne].kind = kind; E[ne].cls = cls; E[ne].name = name; ne++;
}
void pbt_setup(void) {
    add(METAC_GSYM_LINK_ENTRY(v_int), K_VAR, C_INT, "v_int"); add(METAC_GSYM_LINK_ENTRY(v_num), K_VAR, C_INT, "v_num"); add(METAC_GSYM_LINK_ENTRY(v_cnum), K_VAR, C_INT, "v_cnum");
    add(METAC_GSYM_LINK_ENTRY(v_str), K_VAR, C_CHP, "v_str"); add(METAC_GSYM_LINK_ENTRY(v_chp), K_VAR, C_CHP, "v_chp"); add(METAC_GSYM_LINK_ENTRY(v_pair), K_VAR, C_PAIR, "v_pair");
    add(METAC_GSYM_LINK_ENTRY(v_ppair), K_VAR, C_PPAIR, "v_ppair"); add(METAC_GSYM_LINK_ENTRY(v_dbl), K_VAR, C_DBL, "v_dbl"); add(METAC_GSYM_LINK_ENTRY(v_void), K_VAR, C_VOIDP, "v_void");
    metac_entry_t *s = METAC_GSYM_LINK_ENTRY(v_pair), *f = METAC_GSYM_LINK_ENTRY(f_one);
    static const struct { const char *n; int c; } m[] = {{"x", C_INT}, {"s", C_CHP}, {"n", C_INT}, {"arr", C_ARR}, {"next", C_PPAIR}, {"u", C_UN}, {"e", C_EN}};
    for (int i = 0; i < 7; i++) add(metac_entry_by_member_id(s, i), K_MEM, m[i].c, m[i].n);
    static const struct { const char *n; int c; } p[] = {{"a", C_INT}, {"s", C_CHP}, {"p", C_PTPAIR}, {"d", C_DBL}, {"st", C_PAIR}, {"...", C_NONE}};
    for (int i = 0; i < 6; i++) add(metac_entry_by_paremeter_id(f, i), K_PAR, p[i].c, p[i].n);
    int n = ne, firstof[NC]; for (int i = 0; i < NC; i++) firstof[i] = -1;
    for (int i = 0; i < n; i++) {
        int c = E[i].cls; if (c == C_NONE) { E[i].fin = metac_entry_final_entry(E[i].e, NULL) == E[i].e ? i : -1; continue; }
        if (firstof[c] < 0) { firstof[c] = ne; add(metac_entry_final_entry(E[i].e, NULL), K_OTHER, c, "(final)"); E[firstof[c]].fin = firstof[c]; }
        E[i].fin = firstof[c];
    }
    add(f, K_OTHER, C_NONE, "f_one"); E[ne - 1].fin = ne - 1;
}
/* ------------------------------------------------------------------ the model */
#define NM 4
#define NCAT 4
#define MAXT 200
static int freed[MAXT], nt; static bool owned[MAXT];
static void cfree(void *c) { long i = (int *)c - freed; freed[i]++; }
static int hnd(metac_value_walker_hierarchy_t *h, metac_value_event_t *ev, void *c) { return 0; }
struct cat { int mask, ext; int tag[MAXE]; };
static struct { int n, def; struct cat c[NCAT]; metac_tag_map_t *m; } M[NM];
static char tstr[MAXT][16];
static metac_entry_tag_t mk(int *id, char *buf) {
    int t = *id = nt++; freed[t] = 0; owned[t] = false;
    metac_entry_tag_t g = {0};
    tstr[t][0] = 0;
    if (pbt_choose(4)) { snprintf(tstr[t], sizeof tstr[t], "k:\"%d\"", t); strcpy(buf, tstr[t]); g.p_tagstring = buf; }
    g.p_context = &freed[t]; g.handler = hnd; g.context_free_handler = cfree;
    return g;
}
static int lookup(int m, int e) {
    for (int i = 0; i < M[m].n; i++) {
        struct cat *c = &M[m].c[i];
        if (E[e].kind == K_OTHER || !(c->mask & (E[e].kind == K_VAR ? 1 : E[e].kind == K_PAR ? 2 : 4))) continue;
        if (c->ext >= 0) { int t = lookup(c->ext, e); if (t >= 0) return t; continue; }
        if (c->tag[e] >= 0) return c->tag[e];
        if ((c->mask & 8) && E[e].fin >= 0 && c->tag[E[e].fin] >= 0) return c->tag[E[e].fin];
    }
    return M[m].def;
}
static void check(int m, int e) {
    int t = lookup(m, e); metac_entry_tag_t *g = metac_tag_map_tag(M[m].m, E[e].e);
    PBT_ASSERT("lookup", (g != NULL) == (t >= 0), "map %d, %s: %s, expected %s%d", m, E[e].name, g ? "a tag" : "no tag", t < 0 ? "none " : "tag ", t);
    if (!g) return;
    PBT_ASSERT("lookup", g->p_context == &freed[t], "map %d, %s: got tag %ld, expected %d", m, E[e].name, (long)((int *)g->p_context - freed), t);
    PBT_ASSERT("tag", g->handler == hnd && g->context_free_handler == cfree, "tag %d lost its handlers", t);
    PBT_ASSERT("tagstring", (g->p_tagstring != NULL) == (tstr[t][0] != 0) && (!g->p_tagstring || !strcmp(g->p_tagstring, tstr[t])), "tag %d has the string %s, expected %s", t, g->p_tagstring ? g->p_tagstring : "NULL", tstr[t]);
    PBT_ASSERT("alive", freed[t] == 0, "tag %d is found after it is destroyed", t);
}
void pbt_case(void) {
    nt = 0; int nm = 1 + (int)pbt_choose(NM), sets = 0, final_hits = 0, over = 0; char buf[16];
    bool faults = pbt_chance(1, 6);
    PBT_ASSERT("null", metac_new_tag_map_ex(0, (metac_tag_map_entry_t[]){{1}}, NULL) == NULL && metac_new_tag_map_ex(1, NULL, NULL) == NULL && metac_tag_map_tag(NULL, E[0].e) == NULL, "bad arguments are not refused");
    metac_tag_map_delete(NULL);
    for (int m = 0; m < nm; m++) {
        metac_tag_map_entry_t me[NCAT] = {0}; M[m].def = -1;
        bool simple = pbt_chance(1, 6);
        M[m].n = simple ? 1 : 1 + (int)pbt_choose(NCAT);
        pbt_note(" map%d(", m);
        for (int i = 0; i < M[m].n; i++) {
            struct cat *c = &M[m].c[i]; for (int k = 0; k < MAXE; k++) c->tag[k] = -1;
            c->mask = simple ? 7 : (int)pbt_choose(16); if (!simple && pbt_chance(1, 3)) c->mask = 15;
            c->ext = !simple && m > 0 && pbt_chance(1, 3) ? (int)pbt_choose(m) : -1;
            me[i].mask = (metac_tag_map_entry_category_mask_t)c->mask; me[i].p_ext_map = c->ext >= 0 ? M[c->ext].m : NULL;
            pbt_note(" %x/%d", c->mask, c->ext); if (c->ext >= 0) pbt_label("external map");
        }
        int d = -1; metac_entry_tag_t g; bool def = pbt_chance(1, 3);
        if (def) { g = mk(&d, buf); pbt_note(" default %d", d); pbt_label("default tag"); }
        if (faults && pbt_bool()) {
            pbt_fail_alloc_at((int64_t)pbt_choose(6));
            M[m].m = simple ? metac_new_tag_map(def ? &g : NULL) : metac_new_tag_map_ex(M[m].n, me, def ? &g : NULL);
            bool failed = pbt_alloc_failed(); pbt_fail_alloc_at(-1);
            PBT_ASSERT("create", (M[m].m == NULL) == failed, "allocation %s, but the map is %p", failed ? "failed" : "did not fail", (void *)M[m].m);
            if (failed) { pbt_label("failed creation"); if (def) freed[d] = 0; }
        } else M[m].m = NULL;
        if (!M[m].m) M[m].m = simple ? metac_new_tag_map(def ? &g : NULL) : metac_new_tag_map_ex(M[m].n, me, def ? &g : NULL);
        PBT_ASSERT("create", M[m].m != NULL, "no map");
        memset(buf, '#', sizeof buf - 1); M[m].def = d; if (def) owned[d] = true; pbt_note(")");
    }
    int nops = 1 + (int)pbt_choose(pbt_bool() ? 8 : 60);
    int hot = 4 + (int)pbt_choose(ne - 4);
    for (int k = 0; k < nops && nt < MAXT - 2; k++) {
        int m = (int)pbt_choose(nm), e = (int)(pbt_bool() ? pbt_choose(ne) : (hot + pbt_choose(4)) % ne), cat = (int)pbt_range(-1, NCAT), ov = pbt_bool(), fin = pbt_chance(1, 3);
        if (cat < 0 || cat >= M[m].n) if (pbt_choose(4)) cat = 0;
        int op = (int)pbt_choose(8);
        if (op < 5) {
            int id; metac_entry_tag_t g = mk(&id, buf);
            bool nullarg = pbt_chance(1, 20);
            if (nullarg) {
                int w = (int)pbt_choose(3), r = metac_tag_map_set_tag(w == 0 ? NULL : M[m].m, 0, 1, w == 1 ? NULL : E[e].e, METAC_TEO_entry, w == 2 ? NULL : &g);
                PBT_ASSERT("set", r < 0, "set with a NULL argument returns %d", r); nt--; continue;
            }
            bool badcat = cat < 0 || cat >= M[m].n || M[m].c[cat].ext >= 0; int slot = fin ? E[e].fin : e;
            bool exists = !badcat && slot >= 0 && M[m].c[cat].tag[slot] >= 0, ok = !badcat && slot >= 0 && (ov || !exists), fl = false;
            if (faults && pbt_bool()) pbt_fail_alloc_at((int64_t)pbt_choose(4));
            int r = metac_tag_map_set_tag(M[m].m, cat, (metac_flag_t)ov, E[e].e, fin ? METAC_TEO_final_entry : METAC_TEO_entry, &g);
            fl = pbt_alloc_failed(); pbt_fail_alloc_at(-1);
            memset(buf, '#', sizeof buf - 1);
            pbt_note(" set(map %d cat %d %s%s%s tag %d)=%d%s", m, cat, E[e].name, fin ? " final" : "", ov ? " override" : "", id, r, fl ? " OOM" : "");
            if (fl && ok) { PBT_ASSERT("set", r <= 0, "set returns %d", r); if (r < 0) ok = false; pbt_label("failed allocation"); }
            else PBT_ASSERT("set", ok ? r == 0 : r < 0, "set returns %d, %s expected", r, ok ? "success" : "failure");
            PBT_ASSERT("context", freed[id] == 0, "the context of the tag being set is destroyed");
            if (ok) { int old = M[m].c[cat].tag[slot]; if (old >= 0) { PBT_ASSERT("override", freed[old] == 1, "the overridden tag's context is destroyed %d times", freed[old]); owned[old] = false; over++; } M[m].c[cat].tag[slot] = id; owned[id] = true; sets++; }
            else nt--;
        } else check(m, e);
    }
    for (int m = 0; m < nm; m++) for (int e = 0; e < ne; e++) { check(m, e); for (int i = 0; i < M[m].n; i++) if (E[e].kind != K_OTHER && E[e].fin >= 0 && M[m].c[i].ext < 0 && (M[m].c[i].mask & 8) && M[m].c[i].tag[E[e].fin] >= 0) final_hits++; }
    for (int m = nm - 1; m >= 0; m--) metac_tag_map_delete(M[m].m);
    for (int t = 0; t < nt; t++) PBT_ASSERT("destroy", !owned[t] || freed[t] == 1, "the context of tag %d is destroyed %d times", t, freed[t]);
    if (sets >= 4 && final_hits) pbt_nontrivial();
    if (over) pbt_label("overridden"); if (final_hits) pbt_label("found by final type");
}
#endif

#if PART == 2
/* ------------------------------------------------------------------ key:"value" strings */
void pbt_case(void) {
    char s[600], k[16][12], v[16][40]; int n = 0, np = 1 + (int)pbt_choose(8); bool junk = false, dup = false; size_t l = 0;
    static const char ka[] = "abJ_-.,/\\'0\xc3", va[] = "ab :,='(){}0\xe2\t";
    for (int i = 0; i < np; i++) {
        for (int j = (int)pbt_choose(3) - (i > 0 && pbt_chance(1, 3) ? 0 : -(i > 0)); j > 0; j--) s[l++] = ' ';
        if (pbt_chance(1, 6) && (l == 0 || s[l - 1] == ' ')) {      /* something that is not key:"value" */
            junk = true; static const char *const w[] = {"word", "k:v", "b", "a:b:\"c", "k:'x'", "k:xa:\"v\"", "b:xaa:\"w\"", "a::b:\"x\""};
            const char *x = w[pbt_choose(8)]; memcpy(s + l, x, strlen(x)); l += strlen(x); s[l++] = ' '; continue;
        }
        int kn = 1 + (int)pbt_choose(4); for (int j = 0; j < kn; j++) k[n][j] = ka[pbt_choose(sizeof ka - 1)]; k[n][kn] = 0;
        if (n && pbt_chance(1, 3)) { strcpy(k[n], k[pbt_choose(n)]); size_t z = strlen(k[n]); int o = (int)pbt_choose(3); if (o == 1 && z > 1) k[n][z - 1] = 0; else if (o == 2 && z < 10) { k[n][z] = 'a'; k[n][z + 1] = 0; } }
        for (int j = 0; j < n; j++) dup |= !strcmp(k[j], k[n]);
        int vn = (int)pbt_choose(12), z = 0; for (int j = 0; j < vn; j++) { int o = (int)pbt_choose(8); if (o == 0) { v[n][z++] = '\\'; v[n][z++] = '"'; } else if (o == 1) { v[n][z++] = '\\'; v[n][z++] = "\\n:"[pbt_choose(3)]; } else v[n][z++] = va[pbt_choose(sizeof va - 1)]; } v[n][z] = 0;
        l += (size_t)sprintf(s + l, "%s:\"%s\"", k[n], v[n]); n++;
    }
    for (int j = (int)pbt_choose(3); j > 0; j--) s[l++] = ' ';
    s[l] = 0;
    char *heap = strdup(s);     /* exact size for the sanitizer */
    metac_entry_tag_t g = {.p_tagstring = heap};
    pbt_note("%s", s);
    for (int q = 0; q < n + 6; q++) {
        char key[24];
        if (q < n) strcpy(key, k[q]); else if (q == n) strcpy(key, ""); else { strcpy(key, n ? k[pbt_choose(n)] : "a"); size_t z = strlen(key); if (pbt_bool()) { key[z] = "ab:\" "[pbt_choose(5)]; key[z + 1] = 0; } else key[z - 1] = 0; }
        int want = -1; for (int i = n - 1; i >= 0; i--) if (!strcmp(k[i], key)) want = i;
        char *got = (char *)metac_entry_tag_string_lookup(&g, key);
        PBT_ASSERT("value", (got != NULL) == (want >= 0) && (!got || !strcmp(got, v[want])), "lookup of <%s> in <%s> gives <%s>, expected <%s>", key, s, got ? got : "NULL", want < 0 ? "NULL" : v[want]);
        free(got);
    }
    /* the same, cut anywhere: no reading outside; what is found is the value of a complete pair */
    size_t cut = (size_t)pbt_choose(l + 1); char *c = malloc(cut + 1); memcpy(c, s, cut); c[cut] = 0; g.p_tagstring = c;
    for (int i = 0; i < n; i++) { int first = i; for (int j = i; j >= 0; j--) if (!strcmp(k[j], k[i])) first = j; char *got = (char *)metac_entry_tag_string_lookup(&g, k[i]); if (got) PBT_ASSERT("cut", !strcmp(got, v[first]), "lookup of <%s> in <%s> gives <%s>", k[i], c, got); free(got); }
    free(c);
    PBT_ASSERT("null", metac_entry_tag_string_lookup(NULL, "a") == NULL && metac_entry_tag_string_lookup(&(metac_entry_tag_t){0}, "a") == NULL, "NULL tag");
    g.p_tagstring = heap; PBT_ASSERT("null", metac_entry_tag_string_lookup(&g, NULL) == NULL, "NULL key");
    if (n >= 3) pbt_nontrivial(); if (junk) pbt_label("ignored words"); if (dup) pbt_label("repeated key");
    free(heap);
}
#endif

#if PART == 3
/* ------------------------------------------------------------------ handlers: any member as counter or selector */
typedef unsigned char byte_t; typedef const byte_t cbyte_t; typedef int num_t; typedef num_t num2_t;
enum ec { EM3 = -3, EZ = 0, EO, ET, E5 = 5 }; enum eu { UZ, UO, U9 = 9 };
struct el { short b; int a; };
struct lnk { struct lnk *n; };
struct cont { int v; double d; int pad[66]; struct lnk l; char t; };
union U { int i; double d; struct el e; char c[5]; unsigned bf : 3; };
struct Z { int x; char s[]; };
#define COUNTERS(X) X(signed char, sc,, -128, 127) X(unsigned char, uc,, 0, 255) X(char, ch,, -128, 127) X(short, sh,, -32768, 32767) X(unsigned short, us,, 0, 65535) X(int, in,, -2147483647 - 1, 2147483647) X(unsigned, un,, 0, 2147483647) \
    X(long, lo,, -2147483647 - 1, 2147483647) X(unsigned long, ul,, 0, 2147483647) X(long long, ll,, -2147483647 - 1, 2147483647) X(unsigned long long, ull,, 0, 2147483647) X(bool, bo,, 0, 1) X(enum ec, e1,, -3, 5) X(enum eu, e2,, 0, 9) \
    X(byte_t, by,, 0, 255) X(num2_t, n2,, -2147483647 - 1, 2147483647) X(volatile short, vs,, -32768, 32767) \
    X(unsigned, b5, : 5, 0, 31) X(int, b6, : 6, -32, 31) X(signed char, b4, : 4, -8, 7) X(unsigned long long, b33, : 33, 0, 2147483647) X(enum eu, be, : 4, 0, 9)
#define DECL_(t, n, w, lo, hi) t n w;
struct F { COUNTERS(DECL_) float fl; struct el tail[]; };
struct T {
    struct el *pe0; unsigned short us0;
    COUNTERS(DECL_)
    float fl; double dbl; struct el st;
    int *pi; struct el *pe; short (*pa)[2]; char *ps; char *const pcs; unsigned char *pu; void *pv; const void *pcv; struct lnk *pl;
    union U u; struct F *pf; struct Z *pz; struct T *pt;
};
struct T g_t; METAC_GSYM_LINK(g_t); struct F g_f; METAC_GSYM_LINK(g_f); struct Z g_z; METAC_GSYM_LINK(g_z); struct cont *g_cont; METAC_GSYM_LINK(g_cont);
int *g_pi; METAC_GSYM_LINK(g_pi); struct el *g_pe; METAC_GSYM_LINK(g_pe); double *g_pd; METAC_GSYM_LINK(g_pd); char *g_pc; METAC_GSYM_LINK(g_pc); int *(*g_ppi); METAC_GSYM_LINK(g_ppi); struct T *g_ptt; METAC_GSYM_LINK(g_ptt);
#define CN_(t, n, w, lo, hi) {#n, lo, hi},
static const struct { const char *n; long lo, hi; } CN[] = {COUNTERS(CN_)};
enum { NCN = sizeof CN / sizeof *CN };
static void setc(struct T *t, struct F *f, int i, long v) { int k = 0;
#define SET_(ty, n, w, lo, hi) if (k++ == i) { if (t) t->n = v; else f->n = v; }
    COUNTERS(SET_) }
static struct { char *p; size_t sz; int fr; } X[64]; static int nx, bad;
static void *rc(size_t n, size_t s) { if (nx > 60) pbt_fail("blocks", "too many blocks"); X[nx].p = calloc(n, s); X[nx].sz = n * s; X[nx].fr = 0; return X[nx++].p; }
static void rf(void *p) { for (int i = 0; i < nx; i++) if (X[i].p == p && !X[i].fr) { X[i].fr = 1; free(p); return; } bad++; }
static int txtlen(void) { return pbt_chance(1, 25) ? (int[]){126, 127, 128, 254, 255, 256, 600}[pbt_choose(7)] : (int)pbt_choose(6); }
enum { H_NONE, H_COUNT, H_ZERO, H_CONT, H_UNION, H_CAST, H_CONST };
struct cs { long v; int to; bool name; };
struct cfg { int h, cnt, sel; int ncase; struct cs c[5]; };   /* cnt, sel: counter index, -1 none/not numeric, -2 absent name */
static const char *cname(int i) { return i >= 0 ? CN[i].n : i == -1 ? "fl" : i == -2 ? "nosuch" : i == -4 ? "st" : ""; }
static const char *const um[] = {"i", "d", "e", "c", "bf"};
static metac_entry_t *castto(int i) { switch (i) { case 0: return METAC_GSYM_LINK_ENTRY(g_pi); case 1: return METAC_GSYM_LINK_ENTRY(g_pe); case 2: return METAC_GSYM_LINK_ENTRY(g_pd); case 3: return METAC_GSYM_LINK_ENTRY(g_pc); default: return METAC_GSYM_LINK_ENTRY(g_ppi); } }
static const size_t castsz[] = {sizeof(int), sizeof(struct el), sizeof(double), 1, sizeof(int *)};
static long cval[2][NCN]; static bool valid;
static int pickc(void) { int x = (int)pbt_choose(NCN + (valid ? 0 : 2)); return x < NCN ? x : x == NCN ? (pbt_chance(1, 3) ? -1 : 5) : (pbt_chance(1, 4) ? -2 : 6); }
static void tagit(metac_tag_map_t *m, metac_entry_t *e, struct cfg *c) {
    metac_entry_tag_t g = {0};
    switch (c->h) {
        case H_NONE: return;
        case H_COUNT: g.handler = metac_handle_count_by; g.context_free_handler = metac_count_by_context_delete; g.p_context = metac_new_count_by_context((metac_name_t)cname(c->cnt)); break;
        case H_ZERO: g.handler = metac_handle_zero_ended_string; break;
        case H_CONT: g.handler = metac_handle_container_of; g.context_free_handler = metac_container_of_context_delete; g.p_context = metac_new_container_of_context(offsetof(struct cont, l), METAC_GSYM_LINK_ENTRY(g_cont)); break;
        case H_CONST: g.handler = metac_handle_union_member_select; g.context_free_handler = metac_union_member_select_by_context_delete; g.p_context = metac_new_union_member_permanent_selection(c->c[0].to); break;
        case H_UNION: { struct metac_union_member_select_by_case k[5]; memset(k, 0, sizeof k);
            for (int i = 0; i < c->ncase; i++) { k[i].fld_val = (metac_num_t)c->c[i].v; if (c->c[i].name) { k[i].union_fld_name = (metac_name_t)(c->c[i].to < 5 ? um[c->c[i].to] : "zz"); k[i].union_fld_id = 77; } else k[i].union_fld_id = c->c[i].to; }
            g.handler = metac_handle_union_member_select; g.context_free_handler = metac_union_member_select_by_context_delete; g.p_context = metac_new_union_member_select_by_context((metac_name_t)cname(c->sel), k, (size_t)c->ncase * sizeof *k); break; }
        case H_CAST: { struct metac_ptr_cast_case k[5];
            for (int i = 0; i < c->ncase; i++) { k[i].fld_val = (metac_num_t)c->c[i].v; k[i].p_ptr_entry = castto(c->c[i].to); }
            g.handler = metac_handle_ptr_cast; g.context_free_handler = metac_ptr_cast_context_delete; g.p_context = metac_new_ptr_cast_context((metac_name_t)cname(c->cnt), (metac_name_t)cname(c->sel), k, (size_t)c->ncase * sizeof *k); break; }
    }
    PBT_ASSERT("context", c->h == H_ZERO || g.p_context != NULL, "no context");
    int r = metac_tag_map_set_tag(m, 0, 0, e, METAC_TEO_entry, &g);
    PBT_ASSERT("set", r == 0, "set_tag returns %d", r);
}
static void gencases(struct cfg *c, int n, int targets) {
    c->ncase = n;
    for (int i = 0; i < n; i++) { int k = (int)pbt_choose(3); c->c[i].v = k == 0 && c->sel >= 0 ? cval[0][c->sel] : k == 1 ? pbt_range(-6, 9) : (c->sel >= 0 && pbt_bool() ? cval[0][c->sel] + pbt_range(-1, 1) : (long)(int32_t)pbt_u64());
        c->c[i].to = (int)pbt_choose(targets); c->c[i].name = pbt_bool(); }
}
static int matched(struct cfg *c, long v) { for (int i = 0; i < c->ncase; i++) if ((int)c->c[i].v == v) return i; return -1; }
static bool mustfail, either; static int used_count[2][NCN];
static char *blocks[40]; static int nb;
static void *blk(size_t sz) { char *p = malloc(sz ? sz : 1); for (size_t i = 0; i < sz; i++) p[i] = (char)(0x11 + 7 * i + nb); blocks[nb++] = p; return p; }
static struct { const char *n; size_t off, sz; int lead; } want[24]; static int nw;
/* expected size of the block behind a pointer, or -1: the operation fails */
static long expect(struct cfg *c, int w, size_t elsz, bool isvoid, bool ischar) {
    switch (c->h) {
        case H_NONE: if (isvoid) return -1; return (long)elsz;
        case H_COUNT: if (c->cnt == -3 || c->cnt == -1 || c->cnt == -4 || isvoid) return c->cnt >= 0 && isvoid && cval[w][c->cnt] == 0 ? -2 : -1; if (c->cnt == -2) { either = true; return (long)elsz; } return (long)elsz * cval[w][c->cnt];
        case H_ZERO: return ischar ? 0 : -1;
        case H_CONT: return sizeof(struct cont);
        case H_CAST: { if (c->sel < 0 || c->ncase == 0 || c->cnt == -1 || c->cnt == -2 || c->cnt == -4) return -1;
            int k = matched(c, cval[w][c->sel]); if (k < 0) return isvoid ? -1 : (long)elsz;
            return (long)castsz[c->c[k].to] * (c->cnt == -3 ? 1 : cval[w][c->cnt]); }
    }
    return -1;
}
static struct T src, dst;
#define TGT(f, elsz, v, c, gen) { struct cfg *q = &C[k++]; gen; if (act == &src) { long z = pbt_chance(1, 3) ? -2 : expect(q, 0, elsz, v, c); pbt_note(" " #f "[h%d cnt %s sel %s]:%ld", q->h, cname(q->cnt), cname(q->sel), z); \
    if (z == -1 && valid) z = -2; if (z == -2) src.f = NULL; else if (z < 0) { mustfail = true; src.f = blk(64); } else { src.f = blk((size_t)z); want[nw].n = #f; want[nw].off = offsetof(struct T, f); want[nw].sz = (size_t)z; want[nw].lead = 0; nw++; } tagit(map, metac_entry_by_member_id(te, metac_entry_member_name_to_id(te, #f)), q); } }

void pbt_case(void) {
    static struct cfg C[24]; memset(C, 0, sizeof C); memset(&src, 0, sizeof src); memset(&dst, 0xA5, sizeof dst); nb = nw = nx = bad = 0; mustfail = either = false; valid = pbt_choose(4) != 0;
    metac_entry_t *te = METAC_GSYM_LINK_ENTRY(g_t), *fe = METAC_GSYM_LINK_ENTRY(g_f), *ze = METAC_GSYM_LINK_ENTRY(g_z);
    metac_tag_map_t *map = metac_new_tag_map(NULL);
    int k = 0; struct T *act = &src;
    /* values: counters 0..4 (as much as the type holds); a fifth of the cases has big and negative ones, which can only select */
    bool big = pbt_chance(1, 5);
    for (int w = 0; w < 2; w++) for (int i = 0; i < NCN; i++) {
        long v = pbt_range(0, 4); if (big) { v = pbt_bool() ? pbt_range(-6, 9) : (long)(int32_t)pbt_u64(); }
        if (v < CN[i].lo) v = CN[i].lo; if (v > CN[i].hi) v = CN[i].hi;
        if (w == 0 && i == 12) v = v < 0 ? -3 : v > 2 ? 5 : v; if (i == 13 || i == NCN - 1) v = v > 1 ? 9 : v < 0 ? 0 : v;
        if (CN[i].hi == 9 && v == 9 && !big) v = 1;
        if (i == 12 && !big && v > 2) v = 2;
        cval[w][i] = v; if (w == 0) setc(&src, NULL, i, v);
    }
    src.fl = 2; src.dbl = 3; src.us0 = 3; src.st.a = 5;
#define GC { q->h = big ? H_NONE : (int)pbt_choose(2) ? H_COUNT : H_NONE; q->cnt = pickc(); }
#define GV { int h = (int)pbt_choose(5); q->h = h == 0 ? H_NONE : h == 1 && !big ? H_COUNT : H_CAST; q->cnt = big || pbt_chance(1, 3) ? -3 : pickc(); q->sel = pickc(); gencases(q, (int)pbt_choose(5), 5); }
    TGT(pe0, sizeof(struct el), false, false, GC)
    TGT(pi, sizeof(int), false, false, GC)
    TGT(pe, sizeof(struct el), false, false, if (pbt_bool()) GC else GV)
    TGT(pa, 2 * sizeof(short), false, false, GC)
    TGT(pv, 1, true, false, GV)
    TGT(pcv, 1, true, false, GV)
    TGT(pu, 1, false, false, q->h = pbt_chance(1, 8) ? H_ZERO : H_NONE)
    { struct cfg *q = &C[k++]; q->h = H_ZERO; q = &C[k++]; q->h = H_ZERO;
      tagit(map, metac_entry_by_member_id(te, metac_entry_member_name_to_id(te, "ps")), q); tagit(map, metac_entry_by_member_id(te, metac_entry_member_name_to_id(te, "pcs")), q);
      for (int s = 0; s < 2; s++) if (pbt_bool()) { int n = txtlen(); char *p = blk((size_t)n + 1); for (int i = 0; i < n; i++) p[i] = (char)(1 + pbt_choose(255)); p[n] = 0; if (s) src.ps = p; else memcpy((void *)&src.pcs, &p, sizeof p); want[nw].n = s ? "ps" : "pcs"; want[nw].off = s ? offsetof(struct T, ps) : offsetof(struct T, pcs); want[nw].sz = (size_t)n + 1; want[nw].lead = 0; nw++; } }
    { struct cfg *q = &C[k++]; q->h = H_CONT; tagit(map, metac_entry_by_member_id(te, metac_entry_member_name_to_id(te, "pl")), q);
      metac_entry_t *le = metac_entry_by_member_id(metac_entry_pointer_entry(metac_entry_by_member_id(te, metac_entry_member_name_to_id(te, "pl"))), 0); tagit(map, le, q);
      if (pbt_bool()) { struct cont *c = blk(sizeof *c); c->l.n = NULL; src.pl = &c->l; want[nw].n = "pl"; want[nw].off = offsetof(struct T, pl); want[nw].sz = sizeof *c; want[nw].lead = offsetof(struct cont, l); nw++; } }
    int usel = -1;
    { struct cfg *q = &C[k++]; q->h = pbt_choose(3) ? H_UNION : H_CONST; q->sel = pickc(); for (size_t i = 0; i < sizeof src.u; i++) ((char *)&src.u)[i] = (char)(0x21 + i * 5);
      src.u.e.a = 77;
      gencases(q, (int)pbt_choose(6), 6);
      if (q->h == H_CONST) { q->c[0].to = (int)pbt_choose(6); usel = q->c[0].to; }
      else if (q->sel >= 0) { if (q->ncase == 0) usel = cval[0][q->sel] >= 0 && cval[0][q->sel] < 5 ? (int)cval[0][q->sel] : -1; else { int m = matched(q, cval[0][q->sel]); usel = m < 0 ? -1 : q->c[m].to; } }
      if (usel >= 5) usel = -1;
      if (usel < 0 && valid) { q->h = H_CONST; usel = q->c[0].to = (int)pbt_choose(5); }
      if (usel < 0) { mustfail = true; }
      if (q->sel == -2 && q->h == H_UNION) mustfail = true;
      pbt_note(" u[h%d sel %s %d cases]=%d", q->h, cname(q->sel), q->ncase, usel);
      tagit(map, metac_entry_by_member_id(te, metac_entry_member_name_to_id(te, "u")), q); }
    { struct cfg *q = &C[k++]; q->h = !valid && pbt_chance(1, 8) ? H_ZERO : H_COUNT; q->cnt = pickc(); if (q->cnt == -4) q->cnt = -1; metac_entry_t *e = metac_entry_by_member_id(fe, metac_entry_member_name_to_id(fe, "tail")); tagit(map, e, q);
      if (!big && pbt_bool()) { long n = q->h == H_ZERO || q->cnt < 0 ? -1 : cval[1][q->cnt]; struct F *f = blk(offsetof(struct F, tail) + (size_t)(n < 0 ? 2 : n) * sizeof(struct el) > sizeof(struct F) ? offsetof(struct F, tail) + (size_t)(n < 0 ? 2 : n) * sizeof(struct el) : sizeof(struct F)); for (int i = 0; i < NCN; i++) setc(NULL, f, i, cval[1][i]); src.pf = f; f->fl = 4;
        pbt_note(" pf->tail[cnt %s]:%ld", cname(q->cnt), n);
        if (n < 0) mustfail = true; else { want[nw].n = "pf"; want[nw].off = offsetof(struct T, pf); want[nw].sz = offsetof(struct F, tail) + (size_t)n * sizeof(struct el); if (want[nw].sz < sizeof(struct F)) want[nw].sz = sizeof(struct F); want[nw].lead = 0; nw++; } } }
    { struct cfg *q = &C[k++]; q->h = H_ZERO; tagit(map, metac_entry_by_member_id(ze, 1), q);
      if (pbt_bool()) { int n = txtlen(); struct Z *z = blk(sizeof *z + (size_t)n + 1); for (int i = 0; i < n; i++) z->s[i] = (char)(1 + pbt_choose(255)); z->s[n] = 0; src.pz = z; pbt_note(" pz:%d", n); want[nw].n = "pz"; want[nw].off = offsetof(struct T, pz); want[nw].sz = sizeof *z + (size_t)n + 1; want[nw].lead = 0; nw++; } }
    /* objects inside char*/
    for (int i = 0; i < nw; i++) if (!strcmp(want[i].n, "pv") || !strcmp(want[i].n, "pcv") || !strcmp(want[i].n, "pe")) { /* arrays of pointers hold NULLs */
        struct cfg *q = &C[!strcmp(want[i].n, "pv") ? 4 : !strcmp(want[i].n, "pcv") ? 5 : 2]; int m = q->h == H_CAST && q->sel >= 0 ? matched(q, cval[0][q->sel]) : -1; if (m >= 0 && q->c[m].to == 4) memset(*(char **)((char *)&src + want[i].off), 0, want[i].sz); }
    metac_value_memory_map_mode_t mode = {.memory_block_mode = pbt_bool() ? METAC_MMODE_tree : METAC_MMODE_dag, .unknown_ptr_mode = METAC_UPTR_fail, .union_mode = METAC_UNION_fail, .flex_array_mode = METAC_FLXARR_fail};
    metac_value_memory_map_non_handled_mode_t nh = {.unknown_ptr_mode = METAC_UPTR_fail, .union_mode = METAC_UNION_fail, .flex_array_mode = METAC_FLXARR_fail};
    metac_value_t *sv = metac_new_value(te, &src), *dv = metac_new_value(te, &dst);
    metac_value_t *r = metac_value_copy_ex(sv, dv, &mode, rc, rf, map);
    PBT_ASSERT("badfree", bad == 0, "bad free");
    if (mustfail) {
        pbt_label("has to fail");
        PBT_ASSERT("must-fail", r == NULL, "the copy succeeds although a tag cannot be followed");
        for (int i = 0; i < nx; i++) PBT_ASSERT("leak", X[i].fr == 1, "the failed copy keeps a block");
    } else if (!r && either) pbt_label("counter not found");
    else {
        PBT_ASSERT("copies", r == dv, "the copy fails although every tag can be followed");
        if (nw >= 4) pbt_nontrivial();
        for (int i = 0; i < nw; i++) {
            char *s = *(char **)((char *)&src + want[i].off), *d = *(char **)((char *)&dst + want[i].off);
            PBT_ASSERT("null", d != NULL && d != s, "%s is not copied", want[i].n);
            s -= want[i].lead; d -= want[i].lead; int b = 0; while (b < nx && X[b].p != d) b++;
            PBT_ASSERT("block", b < nx, "%s does not lead to a block of the copy", want[i].n);
            PBT_ASSERT("count", X[b].sz == want[i].sz, "%s: the block of the copy has %zu bytes, %zu expected", want[i].n, X[b].sz, want[i].sz);
        }
        PBT_ASSERT("blocks", nx == nw, "%d blocks, %d expected", nx, nw);
        static const struct { size_t o, z; } uz[] = {{0, 4}, {0, 8}, {4, 4}, {0, 5}, {0, 0}};
        PBT_ASSERT("union", !memcmp((char *)&src.u + uz[usel].o, (char *)&dst.u + uz[usel].o, uz[usel].z) && (usel != 2 || src.u.e.b == dst.u.e.b) && (usel != 4 || src.u.bf == dst.u.bf), "union member %s differs", um[usel]);
        int e = metac_value_equal_ex(sv, dv, &mode, map); PBT_ASSERT("equal", e == 1, "the copy is not equal to the source: %d", e);
        if (nw) { /* the last byte that counts makes a difference */
            int i = (int)pbt_choose(nw); char *d = *(char **)((char *)&dst + want[i].off) - want[i].lead; size_t at = want[i].sz - 1;
            if (want[i].lead) at = 0; if (!strncmp(want[i].n, "pf", 2) && want[i].sz == sizeof(struct F)) at = offsetof(struct F, fl) + 2; if (!strcmp(want[i].n, "ps") || !strcmp(want[i].n, "pcs") || !strcmp(want[i].n, "pz")) at = want[i].sz - 2;
            bool ptrs = want[i].sz < 2 || d[at] == 0;
            if (want[i].sz > 1 && !ptrs && !(want[i].n[1] == 'z' && want[i].sz < sizeof(struct Z) + 2)) {
                d[at] ^= 0x40; if (d[at] == 0) d[at] = 1;
                e = metac_value_equal_ex(sv, dv, &mode, map); PBT_ASSERT("differs", e == 0, "%s differs in byte %zu, but the comparison gives %d", want[i].n, at, e);
                e = metac_value_equal_ex(dv, sv, &mode, map); PBT_ASSERT("differs", e == 0, "%s differs in byte %zu, but the comparison gives %d", want[i].n, at, e);
                pbt_label("difference at the end");
            }
        }
        e = metac_value_free_ex(dv, &nh, rf, map); PBT_ASSERT("free", e != 0 && bad == 0, "the copy cannot be freed");
        for (int i = 0; i < nx; i++) PBT_ASSERT("free", X[i].fr == 1, "a block of the copy is not freed");
        pbt_label("copied");
    }
    metac_value_delete(sv); metac_value_delete(dv); metac_tag_map_delete(map);
    for (int i = 0; i < nb; i++) free(blocks[i]);
}
#endif

#if PART == 4
/* ------------------------------------------------------------------ tags of function parameters */
enum cnt { C0, C1, C2, C3 };
typedef unsigned short us_t;
struct el { short b; int a; };
struct bv { unsigned char n; struct el *p; char *s; };     /* passed by value, with tags of its own */
void f(signed char n, us_t nn, struct el *pe, long n1, int *pi, unsigned n_, char *ps, short (*pa)[2], enum cnt nu, struct bv v, char *pc, struct bv *pv, unsigned long long n1n) { __builtin_trap(); }
METAC_GSYM_LINK(f);
struct bv g_bv; METAC_GSYM_LINK(g_bv);
static const char *const cn[] = {"n", "nn", "n1", "n_", "nu", "n1n"};
static long cv[6], bn, vn;
static struct { char *p; size_t sz; int fr; } X[64]; static int nx, bad;
static void *rc(size_t n, size_t s) { if (nx > 60) pbt_fail("blocks", "too many blocks"); X[nx].p = calloc(n, s); X[nx].sz = n * s; X[nx].fr = 0; return X[nx++].p; }
static void rf(void *p) { for (int i = 0; i < nx; i++) if (X[i].p == p && !X[i].fr) { X[i].fr = 1; free(p); return; } bad++; }
static char *blocks[40]; static int nb;
static void *blk(size_t sz) { char *p = malloc(sz ? sz : 1); for (size_t i = 0; i < sz; i++) p[i] = (char)(0x11 + 7 * i + nb); blocks[nb++] = p; return p; }
static char *txt(size_t *sz) { int n = pbt_chance(1, 20) ? (int[]){126, 127, 128, 255, 256, 700}[pbt_choose(6)] : (int)pbt_choose(6); char *p = blk((size_t)n + 1); for (int i = 0; i < n; i++) p[i] = (char)(1 + pbt_choose(255)); p[n] = 0; *sz = (size_t)n + 1; return p; }
static void count_by(metac_tag_map_t *m, metac_entry_t *e, const char *n) {
    metac_entry_tag_t g = {.handler = metac_handle_count_by, .context_free_handler = metac_count_by_context_delete, .p_context = metac_new_count_by_context((metac_name_t)n)};
    PBT_ASSERT("set", e != NULL && metac_tag_map_set_tag(m, 0, 0, e, METAC_TEO_entry, &g) == 0, "set_tag");
}
static void text(metac_tag_map_t *m, metac_entry_t *e) {
    metac_entry_tag_t g = {.handler = metac_handle_zero_ended_string};
    PBT_ASSERT("set", e != NULL && metac_tag_map_set_tag(m, 0, 0, e, METAC_TEO_entry, &g) == 0, "set_tag");
}
static struct { int par; size_t in, sz; char *s; const char *n; } want[16]; static int nw;
static void expect(int par, size_t in, char *s, size_t sz, const char *n) { if (s) { want[nw].par = par; want[nw].in = in; want[nw].s = s; want[nw].sz = sz; want[nw++].n = n; } }

void pbt_case(void) {
    nx = bad = nb = nw = 0;
    metac_entry_t *e = METAC_GSYM_LINK_ENTRY(f), *be = METAC_GSYM_LINK_ENTRY(g_bv);
    metac_tag_map_t *map = metac_new_tag_map(NULL);
    for (int i = 0; i < 6; i++) cv[i] = (long)pbt_choose(i == 4 ? 4 : pbt_chance(1, 12) ? 100 : 5);
    bn = (long)pbt_choose(5); vn = (long)pbt_choose(5);
    size_t sz;
    struct el *pe = NULL; int *pi = NULL; char *ps = NULL, *pc = NULL; short (*pa)[2] = NULL; struct bv v = {0}, *pv = NULL;
#define P(name) metac_entry_by_paremeter_id(e, metac_entry_paremeter_name_to_id(e, name))
#define COUNTED(p, par, one) { int c = (int)pbt_choose(8); size_t z = c < 6 ? (size_t)cv[c] * one : one; if (c < 6) count_by(map, P(#p), cn[c]); pbt_note(#p "[%s] ", c < 6 ? cn[c] : ""); if (!pbt_chance(1, 3)) { p = blk(z); expect(par, 0, (char *)p, z, #p); } }
    COUNTED(pe, 2, sizeof *pe)
    COUNTED(pi, 4, sizeof *pi)
    COUNTED(pa, 7, sizeof *pa)
    text(map, P("ps")); text(map, P("pc"));
    if (pbt_bool()) { ps = txt(&sz); expect(6, 0, ps, sz, "ps"); }
    if (pbt_bool()) { pc = txt(&sz); expect(10, 0, pc, sz, "pc"); }
    count_by(map, metac_entry_by_member_id(be, 1), "n"); text(map, metac_entry_by_member_id(be, 2));
    v.n = (unsigned char)bn;
    if (pbt_bool()) { v.p = blk(sizeof(struct el) * (size_t)bn); expect(9, offsetof(struct bv, p), (char *)v.p, sizeof(struct el) * (size_t)bn, "v.p"); }
    if (pbt_bool()) { v.s = txt(&sz); expect(9, offsetof(struct bv, s), v.s, sz, "v.s"); }
    if (pbt_bool()) { int c = (int)pbt_choose(7); count_by(map, P("pv"), c < 6 ? cn[c] : "n1n"); long k = cv[c < 6 ? c : 5]; pv = blk((size_t)k * sizeof *pv); memset(pv, 0, (size_t)k * sizeof *pv); for (long i = 0; i < k; i++) pv[i].n = (unsigned char)(7 + i); expect(11, 0, (char *)pv, (size_t)k * sizeof *pv, "pv"); }
    for (int i = 0; i < 6; i++) pbt_note("%s=%ld ", cn[i], cv[i]);
    metac_value_t *sv = metac_new_value_with_call_params(e), *dv = metac_new_value_with_call_params(e);
    PBT_ASSERT("new", sv != NULL && dv != NULL, "no value");
    metac_value_t *w = metac_value_parameter_wrap(sv, map, (signed char)cv[0], (us_t)cv[1], pe, cv[2], pi, (unsigned)cv[3], ps, pa, (enum cnt)cv[4], v, pc, pv, (unsigned long long)cv[5]);
    PBT_ASSERT("wrap", w == sv && metac_value_parameter_count(sv) == 13, "the call is not captured");
    metac_value_memory_map_mode_t mode = {.memory_block_mode = pbt_bool() ? METAC_MMODE_tree : METAC_MMODE_dag, .unknown_ptr_mode = METAC_UPTR_fail, .union_mode = METAC_UNION_fail, .flex_array_mode = METAC_FLXARR_fail};
    metac_value_memory_map_non_handled_mode_t nh = {.unknown_ptr_mode = METAC_UPTR_fail, .union_mode = METAC_UNION_fail, .flex_array_mode = METAC_FLXARR_fail};
    metac_value_t *r = metac_value_copy_ex(sv, dv, &mode, rc, rf, map);
    PBT_ASSERT("copies", r == dv && bad == 0, "the call cannot be copied although every tag can be followed");
    if (nw >= 3) pbt_nontrivial();
    char *last = NULL; size_t lastsz = 0; const char *lastn = "";
    int pick = nw ? (int)pbt_choose(nw) : -1;
    for (int i = 0; i < nw; i++) {
        metac_value_t *p = metac_value_parameter_new_item(dv, want[i].par);
        char *d = *(char **)((char *)metac_value_addr(p) + want[i].in); metac_value_delete(p);
        PBT_ASSERT("null", d != NULL && d != want[i].s, "%s is not copied", want[i].n);
        int b = 0; while (b < nx && X[b].p != d) b++;
        PBT_ASSERT("block", b < nx, "%s does not lead to a block of the copy", want[i].n);
        PBT_ASSERT("count", X[b].sz == want[i].sz, "%s: the block of the copy has %zu bytes, %zu expected", want[i].n, X[b].sz, want[i].sz);
        if (i == pick) { last = d; lastsz = want[i].sz; lastn = want[i].n; }
    }
    PBT_ASSERT("blocks", nx == nw, "%d blocks, %d expected", nx, nw);
    int q = metac_value_equal_ex(sv, dv, &mode, map); PBT_ASSERT("equal", q == 1, "the copy is not equal to the source: %d", q);
    bool str = !strcmp(lastn, "ps") || !strcmp(lastn, "pc") || !strcmp(lastn, "v.s"), pvv = !strcmp(lastn, "pv");
    if (last && lastsz > 1) {       /* the last byte that counts makes a difference */
        size_t at = str ? lastsz - 2 : pvv ? lastsz - sizeof(struct bv) : lastsz - 1;
        last[at] ^= 0x40; if (last[at] == 0) last[at] = 1;
        q = metac_value_equal_ex(sv, dv, &mode, map); PBT_ASSERT("differs", q == 0, "%s differs in byte %zu, but the comparison gives %d", lastn, at, q);
        q = metac_value_equal_ex(dv, sv, &mode, map); PBT_ASSERT("differs", q == 0, "%s differs in byte %zu, but the comparison gives %d", lastn, at, q);
        pbt_label("difference at the end");
    }
    q = metac_value_free_ex(dv, &nh, rf, map); PBT_ASSERT("free", q != 0 && bad == 0, "the copy cannot be freed");
    for (int i = 0; i < nx; i++) PBT_ASSERT("free", X[i].fr == 1, "a block of the copy is not freed");
    metac_value_with_call_params_delete(sv); metac_value_with_call_params_delete(dv); metac_tag_map_delete(map);
    for (int i = 0; i < nb; i++) free(blocks[i]);
}
#endif
