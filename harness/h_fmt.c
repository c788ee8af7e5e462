/* Capture of printf-style calls: random formats and arguments handed over in hand-made
 * argument lists (System V x86-64), so that every split over registers and stack occurs. */
#include "metac/reflect.h"
#include "metac/backend/printf_format.h"
#include "pbt.h"
#include <stdarg.h>
const char *pbt_name = "fmt";
int pbt_check_leaks = 1;

int f1(char *format, ...) { return 0; }
METAC_GSYM_LINK(f1);
int f2(char *format, va_list vl) { return 0; }
METAC_GSYM_LINK(f2);
int f3(int a, double b, char *format, ...) { return 0; }
METAC_GSYM_LINK(f3);
int f4(long a, char *fa, va_list va, char *fb, va_list vb, short c) { return 0; }
METAC_GSYM_LINK(f4);
int f5(char *fa, va_list va, double x, char *fb, ...) { return 0; }
METAC_GSYM_LINK(f5);
typedef int f6_t(char *, va_list, unsigned char, char *, ...);
f6_t *f6;
METAC_GSYM_LINK(f6);

/* ---- argument lists */
struct vl { unsigned gp, fp; void *ov, *reg; };
_Static_assert(sizeof(struct vl) == sizeof(va_list), "System V x86-64 argument lists");
struct args { struct vl l; unsigned gp, fp; unsigned char reg[176]; unsigned char *ov; size_t n; void *exact; bool real; };
static struct args A[3];
static void a_start(struct args *a) {
    a->real = a == A && pbt_chance(1, 4);
    a->l.gp = a->gp = a->real ? 16 : 8 * (unsigned)pbt_choose(7);
    a->l.fp = a->fp = a->real ? 48 : 48 + 16 * (unsigned)pbt_choose(9);
    memset(a->reg, 0xcd, sizeof a->reg);
    a->ov = malloc(4096);
    a->n = 0;
    a->exact = NULL;
}
static void a_stack(struct args *a, const void *p, size_t n, size_t al) { a->n = (a->n + al - 1) / al * al; memcpy(a->ov + a->n, p, n); a->n += (n + 7) / 8 * 8; }
static void a_gp(struct args *a, uint64_t v) { if (a->gp < 48) { memcpy(a->reg + a->gp, &v, 8); a->gp += 8; } else a_stack(a, &v, 8, 8); }
static void a_fp(struct args *a, double v) { if (a->fp < 176) { memcpy(a->reg + a->fp, &v, 8); a->fp += 16; } else a_stack(a, &v, 8, 8); }
static void a_ld(struct args *a, long double v) { unsigned char b[16] = {0}; memcpy(b, &v, 10); a_stack(a, b, 16, 16); }
static void a_done(struct args *a) {
    /* exactly as long as what was passed: reading on is an error */
    if (posix_memalign(&a->exact, 16, a->n ? a->n : 16)) abort();
    memcpy(a->exact, a->ov, a->n);
    free(a->ov);
    a->l.ov = a->exact;
    a->l.reg = a->reg;
}

/* a call of a variadic function with two named parameters, that hands over the same registers and stack */
#define S8(i) s[i], s[i + 1], s[i + 2], s[i + 3], s[i + 4], s[i + 5], s[i + 6], s[i + 7]
#define REALCALL(fn, p1, p2) ({ uint64_t g[4], s[64] = {0}; double d[8]; memcpy(g, A[0].reg + 16, sizeof g); \
    for (int i_ = 0; i_ < 8; ++i_) memcpy(&d[i_], A[0].reg + 48 + 16 * i_, 8); \
    if (A[0].n > sizeof s) abort(); memcpy(s, A[0].exact, A[0].n); \
    fn(p1, p2, g[0], g[1], g[2], g[3], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], S8(0), S8(8), S8(16), S8(24), S8(32), S8(40), S8(48), S8(56)); })

/* ---- formats */
struct conv { int kind; const char *type; union { uint64_t u; double d; long double ld; } v; const char *s; size_t slen; metac_printf_specifier_t sp; };
struct fmt { char text[2048]; struct conv c[24]; int n; int bad; int pct; int ptrs; int strs; };
static struct fmt F[2];
static char *pool[64];
static size_t pool_n;
enum { K_INT, K_DBL, K_LD, K_STR, K_NSTR, K_PTR, K_N };

static void lit(struct fmt *f) {
    static const char *w[] = {"", "", "", " ", "a", "d", "lu", ", ", "=", "s", "\n", "%%", "%%", "100%%d", "-", "0", ".", "\t\"", "l", "h", "hello world ", "*"};
    const char *x = w[pbt_choose(sizeof w / sizeof *w)];
    if (strchr(x, '%')) f->pct++;
    strcat(f->text, x);
}
static double dbl(void) { return pbt_bool() ? (double)pbt_range(-1000, 1000) / 8 : (double)(int64_t)pbt_u64(); }
static void conv(struct fmt *f, struct args *a) {
    static const struct { const char *ls, *cs; int kind; const char *type; int size; metac_printf_specifier_arg_len_t al; } T[] = {
        {"", "di", K_INT, "int", 4, psal_no}, {"hh", "di", K_INT, "char", 1, psal_hh}, {"h", "di", K_INT, "short int", 2, psal_h}, {"l", "di", K_INT, "long int", 8, psal_l}, {"ll", "di", K_INT, "long long int", 8, psal_ll},
        {"", "ouxX", K_INT, "unsigned int", 4, psal_no}, {"hh", "ouxX", K_INT, "unsigned char", 1, psal_hh}, {"h", "ouxX", K_INT, "unsigned short int", 2, psal_h}, {"l", "ouxX", K_INT, "unsigned long int", 8, psal_l}, {"ll", "ouxX", K_INT, "unsigned long long int", 8, psal_ll},
        {"", "c", K_INT, "char", 1, psal_no}, {"", "feg", K_DBL, "double", 8, psal_no}, {"L", "feg", K_LD, "long double", 16, psal_L},
        {"", "s", K_STR, "char", 1, psal_no}, {"", "s", K_STR, "char", 1, psal_no}, {"", "p", K_PTR, NULL, 8, psal_no},
        {"", "n", K_N, "int", 8, psal_no}, {"hh", "n", K_N, "char", 8, psal_hh}, {"h", "n", K_N, "short int", 8, psal_h}, {"l", "n", K_N, "long int", 8, psal_l}, {"ll", "n", K_N, "long long int", 8, psal_ll}};
    int t = (int)pbt_choose(sizeof T / sizeof *T);
    struct conv *c = &f->c[f->n++];
    memset(c, 0, sizeof *c);
    char *p = f->text + strlen(f->text);
    *p++ = '%';
    int nf = (int)pbt_choose(3);
    for (int i = 0; i < nf; ++i) {
        char x = "-+ #0"[pbt_choose(5)];
        *p++ = x;
        if (x == '+') c->sp.flags.plus = 1;
        if (x == '-') c->sp.flags.minus = 1;
        if (x == '#') c->sp.flags.pound = 1;
        if (x == '0') c->sp.flags.oct = 1;
        if (x == ' ') c->sp.flags.space = 1;
    }
    if (pbt_chance(1, 3)) { c->sp.format_len = pbt_chance(1, 12) ? (metac_num_t)pbt_range(31, 3000) : (metac_num_t)pbt_range(1, 30); p += sprintf(p, "%d", (int)c->sp.format_len); }
    c->sp.precision = -1;
    if (pbt_chance(1, 3)) {
        c->sp.precision = pbt_chance(1, 12) ? (metac_num_t)pbt_range(21, 1500) : (metac_num_t)pbt_range(0, 20);
        p += c->sp.precision == 0 && pbt_bool() ? sprintf(p, ".") : sprintf(p, pbt_chance(1, 8) ? ".0%d" : ".%d", (int)c->sp.precision);
    }
    p += sprintf(p, "%s", T[t].ls);
    c->sp.arg_len = T[t].al;
    c->sp.t = T[t].cs[pbt_choose(strlen(T[t].cs))];
    *p++ = c->sp.t;
    *p = 0;
    c->kind = T[t].kind;
    c->type = T[t].type;
    switch (c->kind) {
        case K_INT: {
            uint64_t u = pbt_u64();
            if (T[t].size < 8) { uint64_t m = (1ull << (8 * T[t].size)) - 1; u &= m; }
            c->v.u = u;
            c->slen = T[t].size;
            uint64_t pass = u;      /* narrow signed ones arrive sign-extended; upper halves are whatever */
            if (c->sp.t == 'c' || c->sp.t == 'd' || c->sp.t == 'i') { if (T[t].size == 1) pass = (uint32_t)(int8_t)u; if (T[t].size == 2) pass = (uint32_t)(int16_t)u; }
            if (T[t].size < 8) pass |= pbt_choose(2) ? 0xa5a5a5a500000000ull : 0;
            a_gp(a, pass);
            break;
        }
        case K_DBL: c->v.d = dbl(); a_fp(a, c->v.d); break;
        case K_LD: c->v.ld = dbl(); a_ld(a, c->v.ld); break;
        case K_STR:
            if (pbt_chance(1, 10)) { c->kind = K_NSTR; a_gp(a, 0); break; }
            f->strs++;
            size_t n = pbt_chance(1, 30) ? 120 + pbt_choose(200) : pbt_choose(60);
            bool open = c->sp.precision > 0 && c->sp.precision < 400 && pbt_bool();      /* ends with the precision, without a terminator */
            if (open) n = (size_t)c->sp.precision;
            char *s = pool[pool_n++] = malloc(n + !open);
            for (size_t i = 0; i < n; ++i) s[i] = "abcXYZ %d\"\\\n09"[pbt_choose(14)];
            if (!open) s[n] = 0;
            c->s = s;
            c->slen = n;
            if (c->sp.precision >= 0 && (size_t)c->sp.precision < n) c->slen = (size_t)c->sp.precision;
            a_gp(a, (uint64_t)(uintptr_t)s);
            break;
        case K_PTR: { static char o[64]; c->v.u = pbt_chance(1, 3) ? 0 : (uint64_t)(uintptr_t)(o + pbt_choose(64)); if (c->v.u) f->ptrs++; a_gp(a, c->v.u); break; }
        case K_N: { static long long o[64]; long long *q = &o[(f - F) * 24 + f->n - 1]; *q = (long long)pbt_u64(); c->v.u = pbt_chance(1, 3) ? 0 : (uint64_t)(uintptr_t)q; a_gp(a, c->v.u); break; }
    }
}
/* conversions metac does not know: the capture has to be refused */
static void bad(struct fmt *f, bool last) {
    static const char *w[] = {"%*d", "%.*d", "%ls", "%lc", "%y", "%hf", "%!", "%LLd", "%k", "%", "%5", "%.", "%-"};   /* the last ones: unfinished */
    strcat(f->text, w[pbt_choose(last ? 13 : 9)]);
    f->bad = 1;
}
static void make(struct fmt *f, struct args *a, bool mayfail) {
    memset(f, 0, sizeof *f);
    int n = (int)pbt_choose(pbt_chance(1, 5) ? 20 : 6);
    int b = mayfail && pbt_chance(1, 8) ? (int)pbt_choose(n + 1) : -1;
    for (int i = 0; i < n; ++i) { lit(f); if (i == b) bad(f, false); else conv(f, a); }
    if (b >= n) bad(f, true); else lit(f);
}

/* ---- what was captured */
static metac_tag_map_t *map;
static void check_items(metac_value_t *v, struct fmt *f, const char *where) {
    PBT_ASSERT("load", metac_value_has_parameter_load(v) != 0, "%s: no parameter list", where);
    int n = (int)metac_value_parameter_count(v);
    PBT_ASSERT("count", n == f->n, "%s: %d values captured for %d conversions of \"%s\"", where, n, f->n, f->text);
    for (int i = 0; i < n; ++i) {
        struct conv *c = &f->c[i];
        metac_value_t *p = metac_value_parameter_new_item(v, i);
        PBT_ASSERT("item", p != NULL && metac_value_addr(p) != NULL, "%s: value %d missing", where, i);
        metac_entry_t *e = metac_entry_final_entry(metac_value_entry(p), NULL);
        void *q = metac_value_addr(p);
        const char *bt = metac_entry_is_base_type(e) ? metac_entry_base_type_name(e) : NULL;
        switch (c->kind) {
            case K_INT: case K_DBL: case K_LD: {
                size_t sz = c->kind == K_INT ? c->slen : c->kind == K_DBL ? 8 : 10;
                PBT_ASSERT("type", bt && strcmp(bt, c->type) == 0, "%s: value %d of \"%s\" has type %s, not %s", where, i, f->text, bt ? bt : "?", c->type);
                PBT_ASSERT("value", memcmp(q, &c->v, sz) == 0, "%s: value %d (%s) of \"%s\" is %llx, passed %llx", where, i, c->type, f->text, (unsigned long long)(sz < 8 ? *(unsigned char *)q : *(uint64_t *)q), (unsigned long long)c->v.u);
                break;
            }
            case K_STR: {
                PBT_ASSERT("str", metac_value_has_elements(p) && metac_value_element_count(p) == (metac_num_t)c->slen + 1, "%s: string %d of \"%s\" has %d characters, not %d", where, i, f->text, metac_value_has_elements(p) ? (int)metac_value_element_count(p) : -1, (int)c->slen + 1);
                PBT_ASSERT("str-value", memcmp(q, c->s, c->slen) == 0 && ((char *)q)[c->slen] == 0, "%s: string %d of \"%s\" captured as \"%.60s\", passed \"%.60s\"", where, i, f->text, (char *)q, c->s);
                PBT_ASSERT("str-own", q != c->s, "%s: the string %d is not copied", where, i);
                break;
            }
            default: {
                void *x = (void *)1;
                PBT_ASSERT("ptr", metac_value_is_pointer(p) && metac_value_pointer(p, &x) == 0, "%s: value %d of \"%s\" is no pointer", where, i, f->text);
                PBT_ASSERT("ptr-value", (uint64_t)(uintptr_t)x == c->v.u, "%s: pointer %d of \"%s\" is %p, passed %llx", where, i, f->text, x, (unsigned long long)c->v.u);
                if (c->type) {
                    metac_entry_t *t = metac_entry_final_entry(metac_entry_pointer_entry(e), NULL);
                    PBT_ASSERT("ptr-type", t && metac_entry_is_base_type(t) && strcmp(metac_entry_base_type_name(t), c->type) == 0, "%s: pointer %d of \"%s\" does not point to %s", where, i, f->text, c->type);
                }
            }
        }
        metac_value_delete(p);
    }
}
static char *append(char *s, const char *x) { s = realloc(s, strlen(s) + strlen(x) + 1); return strcat(s, x); }
static char *quoted(const char *s, size_t n) {   /* as metac prints strings: compared as printed by its own printing of a string */
    if (n == 0) return strdup("(char []){0,}");
    char *o = malloc(4 * n + 3), *p = o;
    *p++ = '"';
    for (size_t i = 0; i < n; ++i) switch (s[i]) {
        case '"': *p++ = '\\'; *p++ = '"'; break;
        case '\\': *p++ = '\\'; *p++ = '\\'; break;
        case '\n': *p++ = '\\'; *p++ = 'n'; break;
        case '\t': *p++ = '\\'; *p++ = 't'; break;
        default: *p++ = s[i];
    }
    *p++ = '"';
    *p = 0;
    return o;
}
static char *items_text(metac_value_t *v, struct fmt *f, char *s, bool first) {
    for (int i = 0; i < f->n; ++i) {
        if (!first) s = append(s, ", ");
        first = false;
        struct conv *c = &f->c[i];
        if (c->kind == K_STR) { char *q = c->slen ? quoted(c->s, c->slen) : strdup("(char [1]){0,}"); s = append(s, q); free(q); continue; }
        if (c->kind == K_NSTR) { s = append(s, "(char *)NULL"); continue; }
        metac_value_t *p = metac_value_parameter_new_item(v, i);
        char *x = metac_value_string_ex(p, METAC_WMODE_deep, map);
        metac_value_delete(p);
        if (x == NULL) { free(s); return NULL; }
        char t[64];
        if (c->kind == K_PTR) snprintf(t, sizeof t, "(void *)"); else if (c->kind == K_N) snprintf(t, sizeof t, "(%s *)", c->type); else snprintf(t, sizeof t, "(%s)", c->type);
        s = append(s, t);
        s = append(s, x);
        free(x);
    }
    return s;
}

static void tag(metac_entry_t *fn, int i, int kind) {
    metac_entry_tag_t t = {.handler = kind ? metac_handle_printf_format : metac_handle_zero_ended_string};
    int r = metac_tag_map_set_tag(map, 0, 0, metac_entry_by_paremeter_id(fn, i), METAC_TEO_entry, &t);
    PBT_ASSERT("tag", r == 0, "no tag set: %d", r);
}

void pbt_case(void) {
    int which = (int)pbt_choose(8);
    pool_n = 0;
    map = metac_new_tag_map(NULL);
    PBT_ASSERT("map", map != NULL, "no map");
    metac_entry_t *E[6] = {METAC_GSYM_LINK_ENTRY(f1), METAC_GSYM_LINK_ENTRY(f2), METAC_GSYM_LINK_ENTRY(f3), METAC_GSYM_LINK_ENTRY(f4), METAC_GSYM_LINK_ENTRY(f5), metac_entry_pointer_entry(METAC_GSYM_LINK_ENTRY(f6))};
    a_start(&A[0]); a_start(&A[1]); a_start(&A[2]);
    /* parameter lists of the call: index of the parameter, its format, the list its values were put in */
    struct { int id; struct fmt *f; bool vl, tagged; } L[2];
    int nl = 0, nparams = 0;
    struct { int id; char k; uint64_t u; double d; } P[6];
    int np = 0;
    metac_entry_t *e = NULL;
    const char *name = "?";
#define PUTI(i, kind, val) (P[np].id = (i), P[np].k = (kind), P[np++].u = (val), a_gp(&A[0], P[np - 1].u))
#define PUTD(i, val) (P[np].id = (i), P[np].k = 'D', P[np++].d = (val), a_fp(&A[0], P[np - 1].d))
#define LIST(i, fm, ar, v, tg) (L[nl].id = (i), L[nl].f = (fm), L[nl].vl = (v), L[nl++].tagged = (tg))
    bool tg = !pbt_chance(1, 10), tg2 = !pbt_chance(1, 10);
    memset(F, 0, sizeof F);
    switch (which) {
        case 0: case 6:      /* the list alone */
            make(&F[0], &A[0], true);
            break;
        case 1: case 7:
            e = E[0]; name = "f1"; nparams = 2;
            PUTI(0, 's', (uint64_t)(uintptr_t)F[0].text); make(&F[0], &A[0], tg); LIST(1, &F[0], 0, false, tg);
            break;
        case 2:
            e = E[1]; name = "f2"; nparams = 2;
            PUTI(0, 's', (uint64_t)(uintptr_t)F[0].text); make(&F[0], &A[1], tg); a_gp(&A[0], (uint64_t)(uintptr_t)&A[1].l); LIST(1, &F[0], 1, true, tg);
            break;
        case 3:
            e = E[2]; name = "f3"; nparams = 4;
            PUTI(0, 'I', (uint32_t)pbt_u64()); PUTD(1, dbl()); PUTI(2, 's', (uint64_t)(uintptr_t)F[0].text); make(&F[0], &A[0], tg); LIST(3, &F[0], 0, false, tg);
            break;
        case 4:
            e = E[3]; name = "f4"; nparams = 6;
            PUTI(0, 'L', pbt_u64()); PUTI(1, 's', (uint64_t)(uintptr_t)F[0].text); make(&F[0], &A[1], tg); a_gp(&A[0], (uint64_t)(uintptr_t)&A[1].l); LIST(2, &F[0], 1, true, tg);
            PUTI(3, 's', (uint64_t)(uintptr_t)F[1].text); make(&F[1], &A[2], tg2); a_gp(&A[0], (uint64_t)(uintptr_t)&A[2].l); LIST(4, &F[1], 2, true, tg2);
            PUTI(5, 'S', (uint32_t)(int16_t)pbt_u64());
            break;
        case 5: {
            bool ty = pbt_bool();
            e = ty ? E[5] : E[4]; name = ty ? "(f6_t)" : "f5"; nparams = 5;
            PUTI(0, 's', (uint64_t)(uintptr_t)F[0].text); make(&F[0], &A[1], tg); a_gp(&A[0], (uint64_t)(uintptr_t)&A[1].l); LIST(1, &F[0], 1, true, tg);
            if (ty) PUTI(2, 'C', (uint8_t)pbt_u64()); else PUTD(2, dbl());
            PUTI(3, 's', (uint64_t)(uintptr_t)F[1].text); make(&F[1], &A[0], tg2); LIST(4, &F[1], 0, false, tg2);
            break;
        }
    }
    for (int i = 0; i < 3; ++i) a_done(&A[i]);
    va_list l;
    memcpy(l, &A[0].l, sizeof l);
    int total = 0;
    for (int i = 0; i < 2; ++i) total += F[i].n;
    pbt_note("%s \"%s\" \"%s\" gp %u fp %u\n", name, F[0].text, F[1].text, A[0].l.gp, A[0].l.fp);
    for (int k = 0; k < 2; ++k) if (!F[k].bad) {
        size_t n = metac_count_format_specifiers(F[k].text);
        PBT_ASSERT("specifiers", (int)n == F[k].n, "%d conversions counted in \"%s\", there are %d", (int)n, F[k].text, F[k].n);
        size_t pos = 0;
        int i = 0;
        while (F[k].text[pos]) {
            if (F[k].text[pos] != '%') { ++pos; continue; }
            if (F[k].text[pos + 1] == '%') { pos += 2; continue; }
            metac_printf_specifier_t s;
            memset(&s, 0x55, sizeof s);
            PBT_ASSERT("parse", metac_parse_format_specifier(F[k].text, &pos, &s) == 1, "\"%s\": conversion %d not understood", F[k].text, i);
            metac_printf_specifier_t *w = &F[k].c[i].sp;
            PBT_ASSERT("parse-value", s.flags.plus == w->flags.plus && s.flags.minus == w->flags.minus && s.flags.pound == w->flags.pound && s.flags.oct == w->flags.oct && s.flags.space == w->flags.space &&
                       s.format_len == w->format_len && s.precision == w->precision && s.arg_len == w->arg_len && s.t == w->t,
                       "\"%s\": conversion %d read as flags %x width %d precision %d length %d %c", F[k].text, i, s.flags.all & 31, (int)s.format_len, (int)s.precision, (int)s.arg_len, s.t);
            ++i;
        }
        PBT_ASSERT("parse-end", i == F[k].n, "\"%s\": %d conversions found", F[k].text, i);
    }
    char *text = strdup(F[0].text);     /* exactly as long */
    bool failing = (which == 0 || which == 6 || which == 1 || which == 7 || which == 3) && pbt_chance(1, 8);   /* not for va_list: a parameter is recognised as one by text made with malloc */
    if (e == NULL) {
        metac_entry_t *le = metac_store_vprintf_params_entry();
        metac_parameter_storage_t *st = metac_new_parameter_storage();
        if (failing) pbt_fail_alloc_at((int64_t)pbt_choose(1 + 4 * F[0].n));
        int r = A[0].real ? REALCALL(metac_store_printf_params, st, text) : metac_store_vprintf_params(st, text, l);
        if (A[0].real) pbt_label("variadic call");
        bool af = failing && pbt_alloc_failed();
        pbt_fail_alloc_at(-1);
        if (af) {
            PBT_ASSERT("alloc", r != 0, "\"%s\" captured although an allocation failed", text);
            pbt_label("allocation failed");
        } else if (F[0].bad) {
            PBT_ASSERT("refuse", r != 0, "\"%s\" captured although it is not understood", F[0].text);
            pbt_label("format refused");
        } else {
            PBT_ASSERT("store", r == 0, "\"%s\" refused (%d)", F[0].text, r);
            metac_value_t *v = metac_new_value(le, st);
            check_items(v, &F[0], "list");
            char *want = items_text(v, &F[0], append(strdup(""), "VA_LIST("), true), *got = metac_value_string_ex(v, METAC_WMODE_deep, map);
            if (want && !F[0].ptrs) {
                want = append(want, ")");
                PBT_ASSERT("text", got && strcmp(want, got) == 0, "list printed as %.500s, expected %.500s", got ? got : "nothing", want);
            }
            free(want);
            free(got);
            metac_value_delete(v);
            pbt_label("list captured");
        }
        metac_parameter_storage_delete(st);
    } else {
        for (int i = 0; i < nl; ++i) { if (L[i].tagged) tag(e, L[i].id, 1); tag(e, L[i].id - 1, 0); }
        metac_value_t *v = metac_new_value_with_call_params(e);
        metac_parameter_storage_t *st = metac_value_addr(v);
        if (failing) pbt_fail_alloc_at((int64_t)pbt_choose(20 + 4 * total));
        metac_value_t *r = A[0].real ? REALCALL(metac_value_parameter_wrap, v, map) : metac_value_parameter_vwrap(v, map, l);
        if (A[0].real) pbt_label("variadic call");
        bool af = failing && pbt_alloc_failed();
        pbt_fail_alloc_at(-1);
        bool bad = F[0].bad || F[1].bad;
        if (af) {
            /* refused, or the failure did not matter */
            if (r != NULL) metac_value_with_call_params_delete(r); else metac_parameter_storage_delete(st);
            pbt_label("allocation failed");
        } else if (bad) {
            PBT_ASSERT("refuse", r == NULL, "%s: \"%s\" \"%s\" captured although it is not understood", name, F[0].text, F[1].text);
            metac_parameter_storage_delete(st);
            pbt_label("format refused");
        } else {
            PBT_ASSERT("wrap", r != NULL, "%s: \"%s\" \"%s\" not captured", name, F[0].text, F[1].text);
            PBT_ASSERT("params", metac_value_parameter_count(r) == nparams, "%s: %d parameters captured", name, (int)metac_value_parameter_count(r));
            char *want = append(strdup(""), name);
            want = append(want, "(");
            int li = 0, pi = 0, untagged = 0, ptrs = 0;
            for (int i = 0; i < nparams; ++i) {
                metac_value_t *p = metac_value_parameter_new_item(r, i);
                PBT_ASSERT("param", p != NULL, "%s: parameter %d missing", name, i);
                if (li < nl && L[li].id == i) {
                    struct fmt none = {{0}};
                    struct fmt *ff = L[li].tagged ? L[li].f : &none;
                    if (!L[li].tagged) { untagged = 1; strcpy(none.text, "(no instruction)"); }
                    check_items(p, ff, name);
                    ptrs += ff->ptrs;
                    if (want && L[li].vl) want = append(want, ", VA_LIST(");
                    if (want) want = items_text(p, ff, want, L[li].vl);
                    if (want && L[li].vl) want = append(want, ")");
                    ++li;
                } else {
                    void *q = metac_value_addr(p);
                    char b[4200], *s = NULL;
                    int ok = 0;
                    switch (P[pi].k) {
                        case 's': ok = *(uint64_t *)q == P[pi].u; s = quoted((char *)(uintptr_t)P[pi].u, strlen((char *)(uintptr_t)P[pi].u)); break;
                        case 'I': ok = *(uint32_t *)q == (uint32_t)P[pi].u; break;
                        case 'L': ok = *(uint64_t *)q == P[pi].u; break;
                        case 'S': ok = *(uint16_t *)q == (uint16_t)P[pi].u; break;
                        case 'C': ok = *(uint8_t *)q == (uint8_t)P[pi].u; break;
                        case 'D': ok = memcmp(q, &P[pi].d, 8) == 0; break;
                    }
                    PBT_ASSERT("param-value", P[pi].id == i && ok, "%s: parameter %d is not what was passed", name, i);
                    if (s == NULL) s = metac_value_string_ex(p, METAC_WMODE_deep, map);
                    snprintf(b, sizeof b, "%s%s", i ? ", " : "", s);
                    if (want) want = append(want, b);
                    free(s);
                    ++pi;
                }
                metac_value_delete(p);
            }
            char *got = metac_value_string_ex(r, METAC_WMODE_deep, map);
            if (want && !ptrs) {
                want = append(want, ")");
                PBT_ASSERT("text", got && strcmp(want, got) == 0, "call printed as %.700s, expected %.700s", got ? got : "nothing", want);
                pbt_label("text of the call");
            }
            if (!ptrs) {
                metac_value_t *c = metac_new_value_with_call_params(e);
                PBT_ASSERT("copy", metac_value_copy_ex(r, c, NULL, NULL, NULL, map) == c, "%s: \"%s\" \"%s\" not copied", name, F[0].text, F[1].text);
                char *again = metac_value_string_ex(c, METAC_WMODE_deep, map);
                PBT_ASSERT("copy-text", got && again && strcmp(got, again) == 0, "copy printed as %.500s, the call as %.500s", again ? again : "nothing", got ? got : "nothing");
                free(again);
                int q = metac_value_equal_ex(r, c, NULL, map);
                PBT_ASSERT("copy-equal", q == 1, "%s: the copy compares %d", name, q);
                for (int i = 0; i < nl; ++i) if (L[i].tagged && L[i].f->n) {
                    int j = (int)pbt_choose(L[i].f->n);
                    struct conv *cv = &L[i].f->c[j];
                    metac_value_t *pl = metac_value_parameter_new_item(c, L[i].id), *it = metac_value_parameter_new_item(pl, j);
                    if (cv->kind == K_INT || (cv->kind == K_STR && cv->slen > 0)) {
                        *(unsigned char *)metac_value_addr(it) ^= 1;
                        q = metac_value_equal_ex(r, c, NULL, map);
                        PBT_ASSERT("differs", q == 0, "%s: compares %d after value %d of a list was changed", name, q, j);
                        pbt_label("changed value noticed");
                    }
                    metac_value_delete(it);
                    metac_value_delete(pl);
                }
                PBT_ASSERT("free", metac_value_free_ex(c, NULL, NULL, map) == 1, "%s: the copy was not freed", name);
                metac_value_with_call_params_delete(c);
                pbt_label("call copied");
            }
            free(got);
            free(want);
            metac_value_with_call_params_delete(r);
            if (untagged) pbt_label("list without instruction");
            pbt_label(name);
        }
    }
    if (total >= 4) pbt_nontrivial();
    if (F[0].pct || F[1].pct) pbt_label("with %%");
    for (int i = 0; i < 3; ++i) free(A[i].exact);
    while (pool_n) free(pool[--pool_n]);
    free(text);
    metac_tag_map_delete(map);
}
