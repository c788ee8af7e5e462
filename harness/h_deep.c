/* Deep copy / comparison / free of generated object graphs (shared blocks, cycles, pointers into the middle of
 * blocks, counted and zero-ended arrays, flexible arrays, discriminated unions, casts of void *, intrusive lists,
 * unknown pointers) against a model that knows every block of the graph.
 * PART: 1 copy, 2 equality, 3 free, 4 print (records go to $VF_DUMP), 5 compile printed texts back (CASES is the file with them) */
#include "metac/reflect.h"
#include "pbt.h"
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>

#ifndef PART
#define PART 1
#endif
const char *pbt_name = "deep";
int pbt_check_leaks = 1;

/* ------------------------------------------------------------------ types of the graph */
enum color { RED = -3, GREEN = 0, BLUE = 7, BIG = 100000 };
struct leaf { short s; float f; enum color c; unsigned a : 3; int b : 5; unsigned long long w : 40; char txt[4]; };
struct sub { long id; struct leaf *pl; int m[2][3]; };
struct flexd { unsigned char n; struct leaf items[]; };
struct fint { int n; int data[]; };
struct lnk { struct lnk *next; };
struct item { int val; double far[32]; struct lnk link; double d; };
struct hidden;
union raw { int i; float d; char c[12]; };
struct node {
    int id;
    signed char tiny;
    struct leaf lf;
    struct node *next, *other;
    unsigned short nkids;
    struct node *kids;
    long n_nums;
    int *nums;
    char *str;
    struct sub emb;
    struct sub *ps;
    int *pi;
    struct leaf *pl;
    int usel;
    union { int i; double d; struct leaf *pl; char *str; struct node *nd; } u;
    short tsel;
    unsigned char tcount;
    void *any;
    struct flexd *fx;
    struct fint *fi;
    struct lnk *lhead;
    void *opq;
    struct hidden *inc;
    union raw raw;
    unsigned int n_tab;
    struct node **tab;
    char asel;
    union { struct leaf *al; int an; };
};

struct node *g_p; METAC_GSYM_LINK(g_p);
struct node g_v; METAC_GSYM_LINK(g_v);
struct node *g_a[3]; METAC_GSYM_LINK(g_a);

#define TAGS(_raw_, _fint_) \
    METAC_TAG_MAP_ENTRY_FROM_TYPE(struct node) \
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "kids"}), METAC_COUNT_BY(nkids)) \
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "nums"}), METAC_COUNT_BY(n_nums)) \
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "tab"}), METAC_COUNT_BY(n_tab)) \
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "str"}), METAC_ZERO_ENDED_STRING()) \
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "u"}, {.n = "str"}), METAC_ZERO_ENDED_STRING()) \
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "u"}), METAC_UNION_MEMBER_SELECT_BY(usel, \
            {.fld_val = 1, .union_fld_name = "i"}, {.fld_val = 2, .union_fld_id = 1}, {.fld_val = 3, .union_fld_name = "pl"}, \
            {.fld_val = 4, .union_fld_name = "str"}, {.fld_val = -5, .union_fld_name = "nd"})) \
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "any"}), METAC_CAST_PTR(tcount, tsel, \
            {.fld_val = 10, .p_ptr_entry = METAC_ENTRY_OF(int *)}, {.fld_val = -20, .p_ptr_entry = METAC_ENTRY_OF(struct leaf *)}, \
            {.fld_val = 30, .p_ptr_entry = METAC_ENTRY_OF(struct node *)})) \
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "lhead"}), METAC_CONTAINER_OF(struct item, link)) \
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.i = 28}), METAC_UNION_MEMBER_SELECT_BY(asel)) \
        _raw_ \
    METAC_TAG_MAP_ENTRY_END \
    METAC_TAG_MAP_ENTRY_FROM_TYPE(struct lnk) \
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "next"}), METAC_CONTAINER_OF(struct item, link)) \
    METAC_TAG_MAP_ENTRY_END \
    METAC_TAG_MAP_ENTRY_FROM_TYPE(struct flexd) \
        METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "items"}), METAC_COUNT_BY(n)) \
    METAC_TAG_MAP_ENTRY_END \
    METAC_TAG_MAP_ENTRY_FROM_TYPE(struct fint) \
        _fint_ \
    METAC_TAG_MAP_ENTRY_END
#define MASK {.mask = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_variable) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_member) | METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_final)},

METAC_TAG_MAP_NEW(new_map_a, NULL, MASK)
    TAGS(METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "raw"}), METAC_UNION_MEMBER_PARMANENT_SELECTION(1)),
         METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_MEMBER({.n = "data"}), METAC_COUNT_BY(n)))
METAC_TAG_MAP_END
METAC_TAG_MAP_NEW(new_map_b, NULL, MASK)
    TAGS(,)
METAC_TAG_MAP_END

/* ------------------------------------------------------------------ model */
typedef enum { T_INT, T_CHAR, T_LEAF, T_SUB, T_FLEXD, T_FINT, T_ITEM, T_NODE, T_PNODE, T_OPQ, NT } T;
static const char *tname[NT] = {"int", "char", "leaf", "sub", "flexd", "fint", "item", "node", "node*", "opaque"};
static const size_t tsize[NT] = {sizeof(int), 1, sizeof(struct leaf), sizeof(struct sub), sizeof(struct flexd), sizeof(struct fint), sizeof(struct item), sizeof(struct node), sizeof(void *), 1};

enum { PK_ARR, PK_CONT, PK_UNK };
struct blk { char *p; T t; long n; size_t sz; int frees; int mark; bool complete, pool; };
struct set { struct blk b[640]; int n; };
static bool strict;            /* the default modes, and rarely more than one thing that cannot be handled */
static bool acyclic;           /* only finished blocks are shared */
static struct set S, D, X;      /* the source's blocks, the clone's / the copy's blocks */

static struct { bool tree; int uptr, uni, flex; bool mapb; } M;
static int root_kind;           /* 0 pointer variable, 1 structure by value, 2 array of pointers */

typedef struct V {
    void (*ptr)(struct V *, const char *name, void **slot, int pk, T t, long n);
    void (*obj)(struct V *, T t, void *a);
    bool text, is_dst, raw;      /* raw: no interpretation of the modes (all pointer slots) */
    bool failed;
    struct set *set;
    /* unfolding */
    void *anc[400]; size_t ancspan[400]; int nanc;
    void **wide;                 /* a loop pointer which covers more than the pointer it repeats: outside of the domain */
    bool offs;
    long npointers, nstrong; bool overflow;
    struct { void *a; T t; long n; } seen[600]; int nseen;
    int nblk;
    void *arg; T want; long cnt;
    void **hit;
} V;

static char *OUT; static size_t out_n, out_cap;
static void out(V *v, const char *f, ...) {
    if (!v->text) return;
    if (out_cap - out_n < 512) { pbt_fail("harness", "output buffer too small"); }
    va_list ap; va_start(ap, f); out_n += (size_t)vsnprintf(OUT + out_n, out_cap - out_n, f, ap); va_end(ap);
}

static void walk(V *v, T t, void *a);
static void pt(V *v, const char *name, void *slot, int pk, T t, long n) { out(v, "%s=", name); v->ptr(v, name, (void **)slot, pk, t, n); out(v, ";"); }
static long slen(const char *s) { return s ? (long)strlen(s) + 1 : 0; }

static void walk_arr(V *v, T t, void *a, long n) {
    out(v, "[");
    for (long i = 0; i < n; i++) walk(v, t, (char *)a + (size_t)i * tsize[t]);
    out(v, "]");
}

static void walk(V *v, T t, void *a) {
    if (v->obj) v->obj(v, t, a);
    switch (t) {
        case T_INT: out(v, "%d,", *(int *)a); break;
        case T_CHAR: out(v, "%02x", *(unsigned char *)a); break;
        case T_OPQ: out(v, "%02x", *(unsigned char *)a); break;
        case T_PNODE: pt(v, "", a, PK_ARR, T_NODE, 1); break;
        case T_LEAF: { struct leaf *l = a;
            out(v, "{%d %a %d %u %d %llx %02x%02x%02x%02x}", l->s, l->f, l->c, l->a, l->b, (unsigned long long)l->w,
                (unsigned char)l->txt[0], (unsigned char)l->txt[1], (unsigned char)l->txt[2], (unsigned char)l->txt[3]);
            break; }
        case T_SUB: { struct sub *s = a;
            out(v, "{%ld ", s->id); pt(v, "pl", &s->pl, PK_ARR, T_LEAF, 1);
            for (int i = 0; i < 6; i++) walk(v, T_INT, &s->m[i / 3][i % 3]);
            out(v, "}");
            break; }
        case T_FLEXD: { struct flexd *f = a; out(v, "{%d ", f->n); walk_arr(v, T_LEAF, f->items, f->n); out(v, "}"); break; }
        case T_FINT: { struct fint *f = a; out(v, "{%d ", f->n);
            if (v->raw || !M.mapb) walk_arr(v, T_INT, f->data, f->n);
            else if (M.flex == METAC_FLXARR_fail) v->failed = true;
            out(v, "}"); break; }
        case T_ITEM: { struct item *it = a; out(v, "{%d %a %a ", it->val, it->far[0], it->far[31]); pt(v, "next", &it->link.next, PK_CONT, T_ITEM, 1); out(v, "%a}", it->d); break; }
        case T_NODE: { struct node *n = a;
            out(v, "{"); walk(v, T_INT, &n->id); out(v, "%d ", n->tiny); walk(v, T_LEAF, &n->lf);
            pt(v, "next", &n->next, PK_ARR, T_NODE, 1); pt(v, "other", &n->other, PK_ARR, T_NODE, 1);
            out(v, "nkids%d ", n->nkids); pt(v, "kids", &n->kids, PK_ARR, T_NODE, n->nkids);
            out(v, "n%ld ", n->n_nums); pt(v, "nums", &n->nums, PK_ARR, T_INT, n->n_nums);
            pt(v, "str", &n->str, PK_ARR, T_CHAR, slen(n->str));
            walk(v, T_SUB, &n->emb);
            pt(v, "ps", &n->ps, PK_ARR, T_SUB, 1); pt(v, "pi", &n->pi, PK_ARR, T_INT, 1); pt(v, "pl", &n->pl, PK_ARR, T_LEAF, 1);
            out(v, "u%d ", n->usel);
            switch (n->usel) {
                case 1: out(v, "%d", n->u.i); break;
                case 2: out(v, "%a", n->u.d); break;
                case 3: pt(v, "u.pl", &n->u.pl, PK_ARR, T_LEAF, 1); break;
                case 4: pt(v, "u.str", &n->u.str, PK_ARR, T_CHAR, slen(n->u.str)); break;
                case -5: pt(v, "u.nd", &n->u.nd, PK_ARR, T_NODE, 1); break;
                default: v->failed = true;
            }
            out(v, "t%d %d ", n->tsel, n->tcount);
            switch (n->tsel) {
                case 10: pt(v, "any", &n->any, PK_ARR, T_INT, n->tcount); break;
                case -20: pt(v, "any", &n->any, PK_ARR, T_LEAF, n->tcount); break;
                case 30: pt(v, "any", &n->any, PK_ARR, T_NODE, n->tcount); break;
                default: pt(v, "any", &n->any, PK_UNK, T_OPQ, 1);
            }
            pt(v, "fx", &n->fx, PK_ARR, T_FLEXD, 1); pt(v, "fi", &n->fi, PK_ARR, T_FINT, 1);
            pt(v, "lhead", &n->lhead, PK_CONT, T_ITEM, 1);
            pt(v, "opq", &n->opq, PK_UNK, T_OPQ, 1); pt(v, "inc", &n->inc, PK_UNK, T_OPQ, 1);
            if (v->raw || !M.mapb) out(v, "r%a ", n->raw.d);
            else switch (M.uni) {
                case METAC_UNION_fail: v->failed = true; break;
                case METAC_UNION_as_mem: for (int i = 0; i < 12; i++) out(v, "%02x", (unsigned char)n->raw.c[i]); break;
                default: if (v->is_dst) for (int i = 0; i < 12; i++) if (n->raw.c[i]) { out(v, "NONZERO"); break; }
            }
            out(v, "tab%u ", n->n_tab); pt(v, "tab", &n->tab, PK_ARR, T_PNODE, n->n_tab);
            out(v, "a%d ", n->asel);
            if (n->asel == 0) pt(v, "al", &n->al, PK_ARR, T_LEAF, 1); else out(v, "%d", n->an);
            out(v, "}");
            break; }
        default: break;
    }
}

static size_t span(T t, void *a, long n) {   /* the memory a pointer to n objects covers, as far as the tags tell */
    if (t == T_FLEXD) { size_t z = offsetof(struct flexd, items) + ((struct flexd *)a)->n * sizeof(struct leaf); return z > sizeof(struct flexd) ? z : sizeof(struct flexd); }
    if (t == T_FINT) return M.mapb ? sizeof(struct fint) : offsetof(struct fint, data) + (size_t)((struct fint *)a)->n * sizeof(int);
    return (size_t)n * tsize[t];
}

static struct blk *find(struct set *s, void *p) {
    if (!p) return NULL;
    for (int i = 0; i < s->n; i++) if ((char *)p >= s->b[i].p && ((char *)p < s->b[i].p + s->b[i].sz || (char *)p == s->b[i].p)) return &s->b[i];
    return NULL;
}

/* what a pointer slot means: returns false if there is nothing behind it; *pa, *pt_ are the objects behind it */
static bool resolve(V *v, void **slot, int pk, T *t, long *n, void **pa) {
    void *p = *slot;
    if (!p) return false;
    if (pk == PK_CONT) { *pa = (char *)p - offsetof(struct item, link); return true; }
    if (pk == PK_UNK) {
        if (M.uptr != METAC_UPTR_as_one_byte_ptr) { if (M.uptr == METAC_UPTR_fail) v->failed = true; return false; }
        *t = T_OPQ; *n = 1;
    }
    *pa = p;
    return true;
}
static void unknown_text(V *v, void *p) {
    if (M.uptr == METAC_UPTR_as_values) out(v, "%p", p);
    else if (M.uptr == METAC_UPTR_ignore) out(v, v->is_dst && p ? "NOTNULL" : "ign");
}

/* graph form: blocks are numbered in the order they are met, everything is visited once */
static int blkid(V *v, struct blk *b) { if (!b->mark) b->mark = ++v->nblk; return b->mark; }
static void ptr_graph(V *v, const char *name, void **slot, int pk, T t, long n) {
    void *a = NULL;
    if (pk == PK_UNK && M.uptr == METAC_UPTR_ignore) { unknown_text(v, *slot); return; }
    if (!*slot) { out(v, "NULL"); return; }
    v->npointers++;
    if (!resolve(v, slot, pk, &t, &n, &a)) { unknown_text(v, *slot); return; }
    struct blk *b = find(v->set, a);
    if (!b) { out(v, "ALIEN"); return; }
    out(v, "#%d+%ld", blkid(v, b), (long)((char *)a - b->p));
    for (int i = 0; i < v->nseen; i++) if (v->seen[i].a == a && v->seen[i].t == t && v->seen[i].n == n) return;
    if (v->nseen >= 600) { v->overflow = true; return; }
    v->seen[v->nseen].a = a; v->seen[v->nseen].t = t; v->seen[v->nseen++].n = n;
    walk_arr(v, t, a, n);
}
/* unfolded form: a pointer equal to one already followed on the way here is a loop */
static void ptr_tree(V *v, const char *name, void **slot, int pk, T t, long n) {
    void *a = NULL;
    if (v->overflow) return;
    if (pk == PK_UNK && M.uptr == METAC_UPTR_ignore) { unknown_text(v, *slot); return; }
    if (!*slot) { out(v, "NULL"); return; }
    for (int i = v->nanc - 1; i >= 0; i--) if (v->anc[i] == *slot) {
        T t2 = t; long n2 = n;
        if (pk == PK_UNK ? M.uptr == METAC_UPTR_as_one_byte_ptr && v->ancspan[i] < 1 : span(t2, pk == PK_CONT ? NULL : *slot, n2) > v->ancspan[i]) v->wide = slot;
        out(v, "^%d", v->nanc - i); return; }
    if (!resolve(v, slot, pk, &t, &n, &a)) { unknown_text(v, *slot); return; }
    if (++v->npointers > v->cnt || v->nanc >= 390) { v->overflow = true; return; }
    v->nstrong++;
    struct blk *b = v->set ? find(v->set, a) : NULL;
    if (v->set && !b) { out(v, "ALIEN"); return; }
    if (b) b->mark++;
    if (v->offs && b) out(v, "+%ld", (long)((char *)a - b->p));
    v->anc[v->nanc] = *slot; v->ancspan[v->nanc++] = span(t, a, n);
    walk_arr(v, t, a, n);
    v->nanc--;
}

static void walk_root(V *v, void *root) {
    if (root_kind == 1) { walk(v, T_NODE, root); return; }
    void **r = root;
    for (int i = 0; i < (root_kind == 2 ? 3 : 1); i++) pt(v, "root", &r[i], PK_ARR, T_NODE, 1);
}

static void clear_marks(struct set *s) { for (int i = 0; i < s->n; i++) s->b[i].mark = 0; }
struct canon { char *s; bool failed, overflow; void **wide; long nstrong, npointers; int nblk; };
static struct canon canon(void *root, struct set *s, bool graph, bool offs, bool is_dst) {
    static V v; memset(&v, 0, sizeof v);
    v.ptr = graph ? ptr_graph : ptr_tree; v.text = true; v.set = s; v.offs = offs; v.is_dst = is_dst; v.cnt = 260;
    out_n = 0; OUT[0] = 0;
    clear_marks(s);
    walk_root(&v, root);
    struct canon c = {strdup(OUT), v.failed, v.overflow, v.wide, v.nstrong, v.npointers, v.nblk};
    return c;
}

/* ------------------------------------------------------------------ generation */
static unsigned char fillb;
/* a pool allocator: its blocks follow each other without a gap */
static bool use_pool; static _Alignas(16) char pool[1 << 18]; static size_t pool_at;
static bool in_pool(T t, size_t sz) {
    static const size_t al[NT] = {4, 1, 8, 8, 4, 4, 8, 8, 8, 1};
    if (!use_pool || sz == 0 || pool_at + sz + 16 > sizeof pool || pbt_chance(1, 8)) return false;
    pool_at = (pool_at + al[t] - 1) / al[t] * al[t] + sz;
    return true;
}
static struct blk *new_blk(struct set *s, T t, long n, size_t sz) {
    if (s->n >= 600) pbt_fail("harness", "too many blocks");
    struct blk *b = &s->b[s->n++];
    b->pool = in_pool(t, sz);
    b->p = b->pool ? pool + pool_at - sz : malloc(sz); memset(b->p, fillb, sz);
    b->t = t; b->n = n; b->sz = sz; b->frees = 0; b->mark = 0; b->complete = t != T_NODE && t != T_SUB && t != T_PNODE;
    return b;
}
static int rint_(void) { return (int)pbt_u64(); }
static void gen_leaf(struct leaf *l) {
    l->s = (short)pbt_u64(); l->f = (float)pbt_range(0, 2000) / 8; l->c = (enum color[]){GREEN, RED, BLUE, BIG, 5}[pbt_choose(5)];
    l->a = (unsigned)pbt_choose(8); l->b = (int)pbt_choose(32) - 16; l->w = pbt_u64();
    for (int i = 0; i < 4; i++) l->txt[i] = (char)pbt_choose(256);
}
static int node_budget;
static struct { void *a; long left; } cand[300]; static int ncand;
static void obj_collect(V *v, T t, void *a) {
    if (t != v->want || ncand >= 300) return;
    cand[ncand].a = a; cand[ncand++].left = 1;
}
static void ptr_skip(V *v, const char *name, void **slot, int pk, T t, long n) { (void)v; (void)name; (void)slot; (void)pk; (void)t; (void)n; }

/* an already existing object of type t (bases of blocks and objects inside blocks) */
static void *existing(T t, bool inside) {
    ncand = 0;
    for (int i = 0; i < S.n; i++) {
        struct blk *b = &S.b[i];
        if (acyclic && !b->complete) continue;
        if (b->t == T_FINT && M.mapb && t == T_INT) continue;    /* not covered by what the tags tell */
        if (b->t == t && b->n >= 1 && ncand < 300) { cand[ncand].a = b->p; cand[ncand++].left = b->n; }
        if (!inside || b->t == T_CHAR || b->t == T_OPQ || b->t == T_PNODE) continue;
        static V v; memset(&v, 0, sizeof v); v.raw = true; v.ptr = ptr_skip; v.obj = obj_collect; v.want = t;
        for (long k = 0; k < b->n; k++) walk(&v, b->t, b->p + (size_t)k * tsize[b->t]);
    }
    if (!ncand) return NULL;
    return cand[pbt_choose((uint64_t)ncand)].a;
}
static void gen_node(struct node *n);

static char *gen_str(void) {
    if (pbt_chance(1, 4)) {
        ncand = 0;
        for (int i = 0; i < S.n; i++) if (S.b[i].t == T_CHAR && ncand < 300) cand[ncand++].a = S.b[i].p;
        if (ncand) { char *p = cand[pbt_choose((uint64_t)ncand)].a; return pbt_bool() ? p : p + pbt_choose(strlen(p) + 1); }
    }
    long len = PART != 5 && pbt_chance(1, 40) ? (long[]){125, 126, 127, 128, 254, 255, 256, 300, 1023, 1024}[pbt_choose(10)] : (long)pbt_choose(6);
    struct blk *b = new_blk(&S, T_CHAR, len + 1, (size_t)len + 1);
    bool text = pbt_chance(2, 3);
    for (long i = 0; i < len; i++) b->p[i] = text ? "a\"b\\'?\n\t1%~ \a\b\f\v\r0"[pbt_choose(18)] : (char)(1 + pbt_choose(255));
    b->p[len] = 0;
    return b->p;
}
static void gen_sub(struct sub *s);
/* a pointer to one object of type t */
static void *gen_ptr(T t) {
    int k = pbt_weighted(4, (int[]){5, 3, 2, 3});
    if (k == 0) return NULL;
    if (k == 2) return existing(t, false);
    if (k == 3) return existing(t, true);
    switch (t) {
        case T_INT: { struct blk *b = new_blk(&S, t, 1, 4); *(int *)b->p = rint_(); return b->p; }
        case T_LEAF: { struct blk *b = new_blk(&S, t, 1, sizeof(struct leaf)); gen_leaf((struct leaf *)b->p); return b->p; }
        case T_SUB: { struct blk *b = new_blk(&S, t, 1, sizeof(struct sub)); gen_sub((struct sub *)b->p); b->complete = true; return b->p; }
        case T_NODE: { if (node_budget <= 0) return existing(t, pbt_bool()); node_budget--;
            struct blk *b = new_blk(&S, t, 1, sizeof(struct node)); memset(b->p, 0, sizeof(struct node)); gen_node((struct node *)b->p); b->complete = true; return b->p; }
        default: return NULL;
    }
}
static void *gen_opq(void) {
    if (strict ? !pbt_chance(1, 40) : !pbt_bool()) return NULL;
    if (M.uptr == METAC_UPTR_as_one_byte_ptr && pbt_bool()) { T t = (T[]){T_NODE, T_LEAF, T_INT, T_SUB}[pbt_choose(4)]; return existing(t, true); }
    if (pbt_chance(1, 3)) { void *p = existing(T_OPQ, false); if (p) return p; }
    struct blk *b = new_blk(&S, T_OPQ, 1, 1 + pbt_choose(9));
    pbt_bytes(b->p, b->sz);
    return b->p;
}
/* a pointer to n objects with a free choice of n */
static void *gen_arr(T t, long max, long *n) {
    *n = 0;
    int k = pbt_weighted(3, (int[]){3, 4, 2});
    if (k == 0) { if (pbt_chance(1, 3)) *n = (long)pbt_choose((uint64_t)max + 1); return NULL; }
    if (k == 2) {
        ncand = 0;
        for (int i = 0; i < S.n; i++) if (S.b[i].t == t && S.b[i].n > 0 && ncand < 300 && (!acyclic || S.b[i].complete)) { cand[ncand].a = S.b[i].p; cand[ncand++].left = S.b[i].n; }
        if (!ncand) return NULL;
        int c = (int)pbt_choose((uint64_t)ncand);
        long o = pbt_bool() ? 0 : (long)pbt_choose((uint64_t)cand[c].left);
        *n = cand[c].left - o < max ? cand[c].left - o : max;
        if (pbt_chance(1, 3)) *n = 1 + (long)pbt_choose((uint64_t)*n);
        return (char *)cand[c].a + (size_t)o * tsize[t];
    }
    *n = (long)pbt_choose((uint64_t)max + 1);
    if (t == T_NODE) { if (*n > node_budget) *n = node_budget > 0 ? node_budget : 0; node_budget -= (int)*n; }
    struct blk *b = new_blk(&S, t, *n, (size_t)*n * tsize[t]);
    if (t == T_NODE || t == T_PNODE) memset(b->p, 0, b->sz);
    for (long i = 0; i < *n; i++) switch (t) {
        case T_INT: ((int *)b->p)[i] = rint_(); break;
        case T_LEAF: gen_leaf((struct leaf *)b->p + i); break;
        case T_NODE: gen_node((struct node *)b->p + i); break;
        case T_PNODE: ((struct node **)b->p)[i] = gen_ptr(T_NODE); break;
        default: break;
    }
    b->complete = true;
    return b->p;
}
static void gen_sub(struct sub *s) { s->id = (long)pbt_u64(); s->pl = gen_ptr(T_LEAF); for (int i = 0; i < 6; i++) s->m[i / 3][i % 3] = rint_(); }
static bool sparse;
static long many(long few, long lots);
static struct lnk *gen_list(void) {
    if (S.n >= 140 || (!sparse && !pbt_chance(1, 3))) return NULL;
    struct item *last = NULL; struct lnk *head = NULL;
    int n = 1 + (int)many(3, 40);
    for (int i = 0; i < n && S.n < 170; i++) {
        struct blk *b = new_blk(&S, T_ITEM, 1, sizeof(struct item)); struct item *it = (struct item *)b->p;
        memset(it->far, 0, sizeof it->far); it->far[0] = (double)pbt_choose(3); it->far[31] = (double)pbt_choose(3) / 2;
        it->val = rint_(); it->d = (double)pbt_range(0, 100) / 4; it->link.next = NULL;
        if (last) last->link.next = &it->link; else head = &it->link;
        last = it;
    }
    if (pbt_chance(1, 3)) { struct item *t = existing(T_ITEM, false); last->link.next = &t->link; }
    return head;
}
/* graphs of many small nodes, long lists and arrays */
static bool sparse;
static long many(long few, long lots) { return sparse && pbt_chance(1, 4) ? lots - (long)pbt_choose((uint64_t)lots / 2) : (long)pbt_choose((uint64_t)few); }
static void gen_sparse(struct node *n) {
    n->id = rint_(); n->usel = 1; n->asel = 1; n->an = n->id; n->lf.a = (unsigned)pbt_choose(8);
    if (pbt_chance(1, 10)) { long k = many(4, 600); struct blk *b = new_blk(&S, T_INT, k, (size_t)k * 4); unsigned x = (unsigned)rint_(); for (long i = 0; i < k; i++) ((int *)b->p)[i] = (int)(x += 0x9e3779b9u); n->nums = (int *)b->p; n->n_nums = k; }
    else if (pbt_chance(1, 10)) n->nums = gen_arr(T_INT, 4, &n->n_nums);
    if (pbt_chance(1, 12)) n->str = gen_str();
    if (pbt_chance(1, 12)) n->lhead = gen_list();
    if (pbt_chance(1, 12)) { long k = many(4, 250); struct blk *b = new_blk(&S, T_FLEXD, 1, offsetof(struct flexd, items) + (size_t)(k ? k : 1) * sizeof(struct leaf)); memset(b->p, 0, b->sz);
        n->fx = (struct flexd *)b->p; n->fx->n = (unsigned char)k; for (long i = 0; i < k; i++) { n->fx->items[i].s = (short)(i * 7); n->fx->items[i].w = (unsigned long long)i << 20; } }
    if (pbt_chance(1, 12)) { long k = many(4, 500); struct blk *b = new_blk(&S, T_FINT, 1, sizeof(struct fint) + (size_t)k * sizeof(int)); n->fi = (struct fint *)b->p; n->fi->n = (int)k; for (long i = 0; i < k; i++) n->fi->data[i] = (int)i * 77777; }
    for (int fan = pbt_chance(1, 6) ? 3 : 1; fan > 0 && node_budget > 0 && S.n < 150; fan--) {
        int how = (int)pbt_choose(6), k = 1;
        if (how == 2 || how == 3 || how == 5) { k = 1 + (int)pbt_choose(how == 5 ? 2 : 3); if (pbt_chance(1, 5)) k = 1 + (int)pbt_choose(20); if (k > node_budget) k = node_budget; }
        struct blk *b;
        if (how == 3) {
            if (n->tab) continue;
            b = new_blk(&S, T_PNODE, k, (size_t)k * sizeof(void *)); memset(b->p, 0, b->sz); n->tab = (struct node **)b->p; n->n_tab = (unsigned)k;
            for (int i = 0; i < k; i++) { if (pbt_chance(1, 5) || S.n > 150) { n->tab[i] = existing(T_NODE, false); continue; } node_budget--; struct blk *q = new_blk(&S, T_NODE, 1, sizeof(struct node)); memset(q->p, 0, q->sz); n->tab[i] = (struct node *)q->p; gen_sparse(n->tab[i]); q->complete = true; }
            b->complete = true;
            continue;
        }
        if (how == 0 ? n->next != NULL : how == 1 ? n->other != NULL : how == 2 ? n->kids != NULL : how == 4 ? n->usel != 1 : n->any != NULL) continue;
        node_budget -= k;
        b = new_blk(&S, T_NODE, k, (size_t)k * sizeof(struct node)); memset(b->p, 0, b->sz);
        struct node *q = (struct node *)b->p;
        switch (how) { case 0: n->next = q; break; case 1: n->other = q; break; case 2: n->kids = q; n->nkids = (unsigned short)k; break; case 4: n->usel = -5; n->u.nd = q; break; default: n->any = q; n->tsel = 30; n->tcount = (unsigned char)k; }
        for (int i = 0; i < k; i++) gen_sparse(q + i);
        b->complete = true;
    }
    if (!n->other && pbt_chance(1, 6)) n->other = existing(T_NODE, pbt_bool());
    if (!n->next && pbt_chance(1, 6)) n->next = existing(T_NODE, pbt_bool());
    if (pbt_chance(1, 8)) n->pl = existing(T_LEAF, true);
    if (pbt_chance(1, 8)) n->pi = existing(T_INT, true);
}
static void gen_node(struct node *n) {
    long c;
    if (sparse) { gen_sparse(n); return; }
    n->id = rint_(); n->tiny = (signed char)pbt_u64(); gen_leaf(&n->lf);
    n->next = gen_ptr(T_NODE); n->other = gen_ptr(T_NODE);
    n->kids = gen_arr(T_NODE, 3, &c); n->nkids = (unsigned short)c;
    n->nums = gen_arr(T_INT, 4, &c); n->n_nums = c;
    n->str = pbt_bool() ? gen_str() : NULL;
    gen_sub(&n->emb);
    n->ps = gen_ptr(T_SUB); n->pi = gen_ptr(T_INT); n->pl = gen_ptr(T_LEAF);
    static const int us[] = {1, 2, 3, 4, -5, 0};
    n->usel = us[strict && !pbt_chance(1, 40) ? pbt_choose(5) : pbt_weighted(6, (int[]){12, 6, 12, 12, 12, 1})];
    n->u.d = 0;
    switch (n->usel) { case 1: n->u.i = rint_(); break; case 2: n->u.d = (double)pbt_range(0, 1000) / 16; break; case 3: n->u.pl = gen_ptr(T_LEAF); break;
        case 4: n->u.str = pbt_bool() ? gen_str() : NULL; break; case -5: n->u.nd = gen_ptr(T_NODE); break; default: n->u.i = rint_(); }
    static const short ts[] = {0, 10, -20, 30, 7};
    n->tsel = ts[pbt_choose(strict ? 4 : 5)]; n->tcount = 0; n->any = NULL;
    switch (n->tsel) { case 10: n->any = gen_arr(T_INT, 3, &c); n->tcount = (unsigned char)c; break;
        case -20: n->any = gen_arr(T_LEAF, 3, &c); n->tcount = (unsigned char)c; break;
        case 30: n->any = gen_arr(T_NODE, 2, &c); n->tcount = (unsigned char)c; break;
        case 7: n->any = gen_opq(); n->tcount = (unsigned char)pbt_choose(3); break; }
    n->fx = NULL; n->fi = NULL;
    if (PART != 4 && pbt_chance(1, 4)) {
        if (pbt_chance(1, 3) && existing(T_FLEXD, false)) n->fx = existing(T_FLEXD, false);
        else { long k = (long)pbt_choose(4); size_t sz = offsetof(struct flexd, items) + (size_t)k * sizeof(struct leaf); if (sz < sizeof(struct flexd)) sz = sizeof(struct flexd);
            struct blk *b = new_blk(&S, T_FLEXD, 1, sz); n->fx = (struct flexd *)b->p; n->fx->n = (unsigned char)k; for (long i = 0; i < k; i++) gen_leaf(&n->fx->items[i]); }
    }
    if (PART != 4 && pbt_chance(1, 4)) {
        if (pbt_chance(1, 3) && existing(T_FINT, false)) n->fi = existing(T_FINT, false);
        else { long k = (long)pbt_choose(4); struct blk *b = new_blk(&S, T_FINT, 1, sizeof(struct fint) + (size_t)k * sizeof(int));
            n->fi = (struct fint *)b->p; n->fi->n = (int)k; for (long i = 0; i < k; i++) n->fi->data[i] = rint_(); }
    }
    n->lhead = PART == 4 && !pbt_chance(1, 60) ? NULL : gen_list();
    n->opq = gen_opq(); n->inc = gen_opq();
    memset(&n->raw, 0, sizeof n->raw); if (PART == 4 || pbt_bool()) n->raw.d = (float)pbt_range(-100, 100) / 8; else n->raw.i = rint_() & 0xffffff;
    if (M.mapb && pbt_bool()) n->raw.c[4 + pbt_choose(8)] = (char)pbt_choose(256);
    n->tab = gen_arr(T_PNODE, 3, &c); n->n_tab = (unsigned)c;
    n->asel = (char)pbt_choose(2); n->al = NULL;
    if (n->asel) n->an = rint_(); else n->al = gen_ptr(T_LEAF);
}

/* every block that is used has to be reachable as a whole through a pointer to its beginning */
static void ptr_cover(V *v, const char *name, void **slot, int pk, T t, long n) {
    void *a = NULL;
    if (!resolve(v, slot, pk, &t, &n, &a)) return;
    struct blk *b = find(v->set, a);
    if (b && (char *)a == b->p && (b->t == T_OPQ || span(t, a, n) >= (b->t == T_FINT && M.mapb ? sizeof(struct fint) : b->sz))) b->mark = 1;
    for (int i = 0; i < v->nseen; i++) if (v->seen[i].a == a && v->seen[i].t == t && v->seen[i].n == n) return;
    if (v->nseen >= 600) { v->overflow = true; return; }
    v->seen[v->nseen].a = a; v->seen[v->nseen].t = t; v->seen[v->nseen++].n = n;
    walk_arr(v, t, a, n);
}
static void ptr_prune(V *v, const char *name, void **slot, int pk, T t, long n) {
    void *a = NULL;
    if (!resolve(v, slot, pk, &t, &n, &a)) return;
    struct blk *b = find(v->set, a);
    if (!b || !b->mark || (n == 0 && b->sz != 0)) { *slot = NULL; v->cnt++; return; }
    for (int i = 0; i < v->nseen; i++) if (v->seen[i].a == a && v->seen[i].t == t && v->seen[i].n == n) return;
    if (v->nseen >= 600) { v->overflow = true; return; }
    v->seen[v->nseen].a = a; v->seen[v->nseen].t = t; v->seen[v->nseen++].n = n;
    walk_arr(v, t, a, n);
}
static bool prune(void *root, struct set *s) {
    static V v;
    for (;;) {
        clear_marks(s);
        memset(&v, 0, sizeof v); v.ptr = ptr_cover; v.set = s; walk_root(&v, root);
        if (v.overflow) return false;
        memset(&v, 0, sizeof v); v.ptr = ptr_prune; v.set = s; walk_root(&v, root);
        if (v.overflow) return false;
        if (v.cnt == 0) return true;
    }
}

/* the pointers of the unfolding are limited: drop links until it fits */
static void *drop_slot; static long drop_at, drop_i;
static void ptr_drop(V *v, const char *name, void **slot, int pk, T t, long n) { (void)name; (void)pk; (void)t; (void)n; if (*slot) { if (v->cnt++ == drop_at) *slot = NULL; } }

static struct node SV, DV;
static void *SRC, *DST;
static struct node *SP[3], *DP[3];

static bool shrink_unfolding(void) {
    for (int tries = 0; tries < 60; tries++) {
        if (!prune(SRC, &S)) return false;
        struct canon c = canon(SRC, &S, false, false, false);
        bool o = c.overflow; free(c.s);
        if (c.wide) { *c.wide = NULL; continue; }
        if (!o) return true;
        /* cut a pointer of the block which is the most shared */
        int best = -1;
        for (int i = 0; i < S.n; i++) if (S.b[i].t == T_NODE && (best < 0 || S.b[i].mark > S.b[best].mark)) best = i;
        if (best < 0) return false;
        struct blk *b = &S.b[best];
        static V v; memset(&v, 0, sizeof v); v.raw = true; v.ptr = ptr_drop; drop_at = -1;
        for (long k = 0; k < b->n; k++) walk(&v, T_NODE, b->p + (size_t)k * sizeof(struct node));
        if (v.cnt == 0) return false;
        drop_at = (long)pbt_choose((uint64_t)v.cnt); v.cnt = 0;
        for (long k = 0; k < b->n; k++) walk(&v, T_NODE, b->p + (size_t)k * sizeof(struct node));
    }
    return false;
}

static bool generate(void) {
    memset(&S, 0, sizeof S); memset(&D, 0, sizeof D); memset(&X, 0, sizeof X);
    M.tree = pbt_bool(); M.mapb = pbt_bool();
    M.uptr = (int[]){METAC_UPTR_as_one_byte_ptr, METAC_UPTR_as_values, METAC_UPTR_ignore, METAC_UPTR_fail}[pbt_weighted(4, (int[]){4, 4, 4, 3})];
    M.uni = (int[]){METAC_UNION_as_mem, METAC_UNION_ignore, METAC_UNION_fail}[pbt_weighted(3, (int[]){4, 4, 1})];
    M.flex = (int[]){METAC_FLXARR_ignore, METAC_FLXARR_fail}[pbt_weighted(2, (int[]){4, 1})];
    root_kind = (int)pbt_choose(3);
    strict = PART < 4 && pbt_chance(1, 6);
    if (strict) { M.uptr = METAC_UPTR_fail; M.uni = METAC_UNION_fail; M.flex = METAC_FLXARR_fail; M.mapb = pbt_chance(1, 20); pbt_label("default modes"); }
#if PART == 4
    M.uptr = METAC_UPTR_as_values; M.uni = METAC_UNION_ignore; M.flex = METAC_FLXARR_ignore; acyclic = !pbt_chance(1, 15);
#endif
    use_pool = PART < 4 && pbt_chance(1, 4); pool_at = pbt_choose(16);
    if (use_pool) pbt_label("blocks without gaps");
    fillb = (unsigned char)pbt_choose(256);
    node_budget = 1 + (int)pbt_choose(pbt_chance(1, 3) ? 7 : 3);
    sparse = PART < 4 && pbt_chance(1, 16);
    if (sparse) { node_budget = 8 + (int)pbt_choose(60); pbt_label("many nodes"); }
    SRC = root_kind == 0 ? (void *)&SP[0] : root_kind == 1 ? (void *)&SV : (void *)SP;
    DST = root_kind == 0 ? (void *)&DP[0] : root_kind == 1 ? (void *)&DV : (void *)DP;
    memset(SP, 0, sizeof SP); memset(&SV, 0, sizeof SV);
    if (root_kind == 1) gen_node(&SV);
    else for (int i = 0; i < (root_kind == 2 ? 3 : 1); i++) {
        if (i > 0 || pbt_chance(1, 30)) { SP[i] = gen_ptr(T_NODE); continue; }
        node_budget--;
        struct blk *b = new_blk(&S, T_NODE, 1, sizeof(struct node)); memset(b->p, 0, sizeof(struct node)); SP[i] = (struct node *)b->p; gen_node(SP[i]);
    }
    return shrink_unfolding();
}
static metac_entry_t *entry(void) { return root_kind == 0 ? METAC_GSYM_LINK_ENTRY(g_p) : root_kind == 1 ? METAC_GSYM_LINK_ENTRY(g_v) : METAC_GSYM_LINK_ENTRY(g_a); }
static size_t root_size(void) { return root_kind == 0 ? sizeof(void *) : root_kind == 1 ? sizeof(struct node) : sizeof(SP); }

static void destroy(struct set *s) { for (int i = 0; i < s->n; i++) if (!s->b[i].frees && !s->b[i].pool) free(s->b[i].p); s->n = 0; }

static metac_tag_map_t *mapa, *mapb;
void pbt_setup(void) {
    out_cap = 1 << 22; OUT = malloc(out_cap);
    mapa = new_map_a(); mapb = new_map_b();
}

static void describe(struct canon *g) {
    pbt_note("root %s, mode %s uptr=%s union=%s flex=%s map %s\n", root_kind == 0 ? "pointer" : root_kind == 1 ? "struct" : "array of 3 pointers", M.tree ? "tree" : "dag",
             (const char *[]){"fail", "ignore", "as_values", "one_byte"}[M.uptr], (const char *[]){"fail", "ignore", "as_mem"}[M.uni], M.flex == METAC_FLXARR_fail ? "fail" : "ignore", M.mapb ? "B" : "A");
    for (int i = 0; i < S.n; i++) pbt_note("%s[%ld] ", tname[S.b[i].t], S.b[i].n);
    pbt_note("\n%.1500s\n", g->s);
    pbt_label(M.tree ? "tree" : "dag");
    static const char *ul[] = {"uptr fail", "uptr ignore", "uptr as values", "uptr one byte"};
    pbt_label(ul[M.uptr]);
    pbt_label(root_kind == 0 ? "root pointer" : root_kind == 1 ? "root structure" : "root array");
    if (strchr(g->s, '^')) pbt_label("cycle in the unfolding");
}
static bool weak_used(const char *graph) {     /* a pointer into the middle of a block */
    for (const char *p = graph; (p = strchr(p, '#')); p++) { const char *q = strchr(p, '+'); if (q && q[1] != '0') return true; }
    return false;
}

/* ------------------------------------------------------------------ recorded memory functions */
static long rec_fail_at; static bool rec_failed; static int rec_bad;
static void *rec_calloc(size_t n, size_t sz) {
    if (rec_fail_at >= 0 && X.n == rec_fail_at) { rec_failed = true; return NULL; }
    if (X.n >= 639) pbt_fail("copy-blocks", "the copy allocates more blocks than the source can have");
    struct blk *b = &X.b[X.n++];
    memset(b, 0, sizeof *b);
    b->sz = n * sz; b->p = calloc(n, sz); b->t = T_OPQ; b->n = 1;
    return b->p;
}
static void rec_free(void *p) {
    for (int k = 0; k < 2; k++) {
        struct set *s = k ? &S : &X;
        for (int i = 0; i < s->n; i++) if (s->b[i].p == p && s->b[i].frees == 0) { s->b[i].frees++; if (!s->b[i].pool) free(p); return; }
    }
    rec_bad++;
}

static void free_ok(bool cond, const char *what) { if (!cond) pbt_fail("free", "%s", what); }

#if PART == 1
static void snapshot(char **p, size_t *n) {
    size_t z = root_size(); for (int i = 0; i < S.n; i++) z += S.b[i].sz;
    char *m = malloc(z); size_t o = 0;
    memcpy(m, SRC, root_size()); o = root_size();
    for (int i = 0; i < S.n; i++) { memcpy(m + o, S.b[i].p, S.b[i].sz); o += S.b[i].sz; }
    *p = m; *n = z;
}

void pbt_case(void) {
    if (!generate()) { pbt_label("skipped: unfolding too large"); destroy(&S); return; }
    struct canon g = canon(SRC, &S, true, false, false), t = canon(SRC, &S, false, false, false);
    describe(&t);
    bool expect_fail = t.failed;
    bool nul = !use_pool && pbt_chance(1, 8);     /* default functions */
    if (g.nblk >= 6 && !expect_fail && (strchr(t.s, '^') || weak_used(g.s))) pbt_nontrivial();
    if (weak_used(g.s)) pbt_label("pointer into a block");
    if (expect_fail) pbt_label("has to fail");
    memset(&DV, 0xA5, sizeof DV); memset(DP, 0xA5, sizeof DP);
    char *s1, *s2; size_t z1, z2;
    snapshot(&s1, &z1);
    metac_value_memory_map_mode_t mode = {.memory_block_mode = M.tree ? METAC_MMODE_tree : METAC_MMODE_dag, .unknown_ptr_mode = M.uptr, .union_mode = M.uni, .flex_array_mode = M.flex};
    metac_value_memory_map_non_handled_mode_t nh = {.unknown_ptr_mode = M.uptr, .union_mode = M.uni, .flex_array_mode = M.flex};
    metac_tag_map_t *map = M.mapb ? mapb : mapa;
    metac_value_t *sv = metac_new_value(entry(), SRC), *dv = metac_new_value(entry(), DST);
    rec_failed = false; rec_bad = 0; rec_fail_at = -1;
    long blocks = M.tree ? t.nstrong : g.nblk;
    if (!nul && pbt_chance(1, 4)) { rec_fail_at = (long)pbt_choose((uint64_t)(blocks + 1)); pbt_label("allocation fails"); }
    metac_value_t *r = metac_value_copy_ex(sv, dv, &mode, nul ? NULL : rec_calloc, nul ? NULL : rec_free, map);
    snapshot(&s2, &z2);
    PBT_ASSERT("source", z1 == z2 && memcmp(s1, s2, z1) == 0, "copying changed the source");
    free(s1); free(s2);
    PBT_ASSERT("badfree", rec_bad == 0, "the copy frees memory which it did not allocate (or twice)");
    if (expect_fail || rec_failed) {
        PBT_ASSERT("must-fail", r == NULL, "the copy succeeds although %s", expect_fail ? "the source has something that cannot be handled in this mode" : "an allocation failed");
        for (int i = 0; i < X.n; i++) PBT_ASSERT("failed-leak", X.b[i].frees == 1, "the failed copy leaves block %d of %d allocated", i, X.n);
    } else {
        PBT_ASSERT("returns", r == dv, "the copy fails although everything can be handled");
        if (!nul) {
            struct canon c = canon(DST, &X, !M.tree, false, true);
            const char *want = M.tree ? t.s : g.s;
            PBT_ASSERT("copy-equals", strcmp(want, c.s) == 0, "the copy differs from the source:\n%.3000s\n%.3000s", want, c.s);
            for (int i = 0; i < X.n; i++) PBT_ASSERT("unused", X.b[i].mark >= 1 && X.b[i].frees == 0, "a block allocated by the copy is not used by it");
            PBT_ASSERT("blocks", X.n == blocks, "the copy has %d blocks, %ld expected", X.n, blocks);
            free(c.s);
        }
        int eq = metac_value_equal_ex(sv, dv, &mode, map);
        PBT_ASSERT("equal", eq == 1, "metac_value_equal_ex(source, copy) = %d", eq);
        eq = metac_value_equal_ex(dv, sv, &mode, map);
        PBT_ASSERT("equal", eq == 1, "metac_value_equal_ex(copy, source) = %d", eq);
        int fr = metac_value_free_ex(dv, &nh, nul ? NULL : rec_free, map);
        PBT_ASSERT("free", fr != 0, "the copy cannot be freed");
        PBT_ASSERT("free", rec_bad == 0, "freeing the copy frees something else");
        for (int i = 0; i < X.n; i++) PBT_ASSERT("free", X.b[i].frees == 1, "freeing the copy leaves block %d", i);
        pbt_label("copied");
    }
    metac_value_delete(sv); metac_value_delete(dv);
    free(g.s); free(t.s);
    destroy(&X); destroy(&S);
}
#endif

#if PART == 3
void pbt_case(void) {
    if (!generate()) { pbt_label("skipped: unfolding too large"); destroy(&S); return; }
    struct canon t = canon(SRC, &S, false, false, false), g = canon(SRC, &S, true, false, false);
    describe(&t);
    if (g.nblk >= 6 && !t.failed && (strchr(t.s, '^') || weak_used(g.s))) pbt_nontrivial();
    if (weak_used(g.s)) pbt_label("pointer into a block");
    metac_value_memory_map_non_handled_mode_t nh = {.unknown_ptr_mode = M.uptr, .union_mode = M.uni, .flex_array_mode = M.flex};
    metac_tag_map_t *map = M.mapb ? mapb : mapa;
    metac_value_t *sv = metac_new_value(entry(), SRC);
    bool nul = !use_pool && pbt_chance(1, 8);
    bool reached[640]; int nreach = 0;
    for (int i = 0; i < S.n; i++) nreach += reached[i] = S.b[i].mark != 0;
    if (nul) for (int i = 0; i < S.n; i++) if (!t.failed && reached[i]) S.b[i].frees = 1;    /* plain free(): the sanitizer and the leak count watch */
    rec_bad = 0;
    bool defmode = M.uptr == METAC_UPTR_fail && M.uni == METAC_UNION_fail && M.flex == METAC_FLXARR_fail && pbt_bool();
    int r = metac_value_free_ex(sv, defmode ? NULL : &nh, nul ? NULL : rec_free, map);
    PBT_ASSERT("badfree", rec_bad == 0, "free_fn is called for something that is not the beginning of a block (or twice)");
    PBT_ASSERT("result", (r != 0) == !t.failed, "metac_value_free_ex returns %d, %s expected", r, t.failed ? "failure" : "success");
    if (!nul) for (int i = 0; i < S.n; i++) {
        int want = !t.failed && reached[i];
        PBT_ASSERT("freed", S.b[i].frees == want, "block %d (%s) is freed %d times, expected %d", i, tname[S.b[i].t], S.b[i].frees, want);
    }
    if (t.failed) pbt_label("has to fail"); else pbt_label(nreach > 12 ? "freed > 12 blocks" : "freed <= 12 blocks");
    metac_value_delete(sv); free(t.s); free(g.s);
    destroy(&S);
}
#endif

#if PART == 2
/* a copy of the whole graph made by the harness, with other bytes in the padding */
static bool keep_raw;
static void ptr_reloc(V *v, const char *name, void **slot, int pk, T t, long n) {
    (void)name; (void)t; (void)n; (void)v;
    if (!*slot || (pk == PK_UNK && keep_raw)) return;
    char *a = pk == PK_CONT ? (char *)*slot - offsetof(struct item, link) : *slot;
    struct blk *b = find(&S, a);
    if (!b) pbt_fail("harness", "pointer outside of the graph");
    *slot = D.b[b - S.b].p + ((char *)*slot - b->p);
}
static unsigned char pad[NT][sizeof(struct node)];
static void masks(void) {
    static bool done; if (done) return; done = true;
    memset(pad, 0xff, sizeof pad);
    struct leaf l; memset(&l, 0, sizeof l); l.s = -1; memset(&l.f, 0xff, 4); memset(&l.c, 0xff, 4); l.a = 7; l.b = -1; l.w = -1; memset(l.txt, 0xff, 4);
    memcpy(pad[T_LEAF], &l, sizeof l);
    memset(pad[T_FLEXD], 0, sizeof(struct flexd)); pad[T_FLEXD][0] = 0xff;
    struct item it; memset(&it, 0, sizeof it); it.val = -1; memset(it.far, 0xff, sizeof it.far); memset(&it.link, 0xff, 8); memset(&it.d, 0xff, 8); memcpy(pad[T_ITEM], &it, sizeof it);
    struct node *n = (struct node *)pad[T_NODE]; memset(n, 0, sizeof *n);
#define F(f) memset(&n->f, 0xff, sizeof n->f);
    F(id) F(tiny) F(next) F(other) F(nkids) F(kids) F(n_nums) F(nums) F(str) F(emb) F(ps) F(pi) F(pl) F(usel) F(u) F(tsel) F(tcount) F(any) F(fx) F(fi) F(lhead) F(opq) F(inc) F(raw) F(n_tab) F(tab) F(asel) F(al)
#undef F
    n->lf = l;
}
static void scramble(unsigned char x, T t, char *p) { for (size_t i = 0; i < tsize[t]; i++) p[i] ^= x & ~pad[t][i]; }
static void obj_scramble(V *v, T t, void *a) { if (t == T_LEAF || t == T_ITEM || t == T_NODE || t == T_FLEXD) scramble((unsigned char)v->cnt, t, a); }

static void clone(void) {
    memset(&D, 0, sizeof D);
    keep_raw = M.uptr == METAC_UPTR_as_values || M.uptr == METAC_UPTR_ignore;
    for (int i = 0; i < S.n; i++) { struct blk *b = new_blk(&D, S.b[i].t, S.b[i].n, S.b[i].sz); memcpy(b->p, S.b[i].p, b->sz); }
    memcpy(DST, SRC, root_size());
    masks();
    static V v; memset(&v, 0, sizeof v); v.raw = true; v.ptr = ptr_reloc; v.obj = obj_scramble; v.cnt = (long)pbt_choose(256);
    for (int i = 0; i < D.n; i++) if (D.b[i].t != T_OPQ) for (long k = 0; k < D.b[i].n; k++) walk(&v, D.b[i].t, D.b[i].p + (size_t)k * tsize[D.b[i].t]);
    walk_root(&v, DST);
}

/* objects and slots of the clone that are in use */
static struct { void *a; T t; } objs[2000]; static int nobjs;
static struct { void **s; int pk; T t; long n; } slots[2000]; static int nslots;
static void obj_use(V *v, T t, void *a) { (void)v; if (nobjs < 2000) { objs[nobjs].a = a; objs[nobjs++].t = t; } }
static void ptr_use(V *v, const char *name, void **slot, int pk, T t, long n) {
    void *a = NULL;
    if (nslots < 2000) { slots[nslots].s = slot; slots[nslots].pk = pk; slots[nslots].t = t; slots[nslots++].n = n; }
    if (!resolve(v, slot, pk, &t, &n, &a)) return;
    for (int i = 0; i < v->nseen; i++) if (v->seen[i].a == a && v->seen[i].t == t && v->seen[i].n == n) return;
    if (v->nseen >= 600) return;
    v->seen[v->nseen].a = a; v->seen[v->nseen].t = t; v->seen[v->nseen++].n = n;
    walk_arr(v, t, a, n);
}
static void inventory(void) {
    static V v; memset(&v, 0, sizeof v); v.ptr = ptr_use; v.obj = obj_use; nobjs = nslots = 0;
    walk_root(&v, DST);
}
static void flipf(void *p, size_t n) { unsigned char *q = p; q[pbt_choose(n)] ^= (unsigned char)(1 << pbt_choose(8)); }
static void mutate_scalar(void) {
    if (!nobjs) return;
    int k = (int)pbt_choose((uint64_t)nobjs); void *a = objs[k].a;
    switch (objs[k].t) {
        case T_INT: flipf(a, 4); break;
        case T_CHAR: { unsigned char *c = a; struct blk *b = find(&D, a); if (b && b->t == T_CHAR && *c) { *c = (unsigned char)(1 + (*c % 255)); } break; }
        case T_OPQ: flipf(a, 1); break;
        case T_LEAF: { struct leaf *l = a; switch (pbt_choose(7)) { case 0: flipf(&l->s, 2); break; case 1: l->f += 1; break; case 2: l->c ^= 8; break; case 3: l->a ^= 1u << pbt_choose(3); break;
            case 4: l->b ^= (int)(1 << pbt_choose(5)); break; case 5: l->w ^= 1ull << pbt_choose(40); break; default: flipf(l->txt, 4); } break; }
        case T_SUB: flipf(&((struct sub *)a)->id, 8); break;
        case T_ITEM: if (pbt_bool()) flipf(&((struct item *)a)->val, 4); else ((struct item *)a)->d += 0.25; break;
        case T_NODE: { struct node *n = a; switch (pbt_choose(7)) { case 0: flipf(&n->tiny, 1); break;
            case 1: if (n->usel == 1) flipf(&n->u.i, 4); else if (n->usel == 2) n->u.d += 1; break;
            case 2: if (n->usel == 1 || n->usel == 2) { n->usel = 3 - n->usel; n->u.d = 0; } break;
            case 3: if (M.mapb) flipf(&n->raw.c, 12); else n->raw.d += 1; break;
            case 4: if (n->usel == 1) flipf((char *)&n->u + 4, 4); break;     /* bytes of the union the chosen member does not cover */
            case 5: if (n->asel) flipf(&n->an, 4); break;
            case 6: if (!n->any) { if (pbt_bool()) n->tcount ^= 1; else n->tsel = (short)(n->tsel == 10 ? -20 : 10); } break; }
            break; }
        case T_FINT: { struct fint *f = a; if (M.mapb && f->n > 0) f->data[0] ^= 1; break; }
        case T_FLEXD: { struct flexd *f = a; if (f->n) f->n--; break; }
        default: break;
    }
}
static void mutate_ptr(void) {
    if (!nslots) return;
    int k = (int)pbt_choose((uint64_t)nslots); void **s = slots[k].s; T t = slots[k].t;
    struct blk *b = slots[k].pk == PK_CONT ? NULL : find(&D, *s);
    switch (pbt_choose(4)) {
        case 0: *s = NULL; break;
        case 1: /* its own copy of the object instead of a shared one */
            if (b && (char *)*s == b->p && b->t == t && D.n < 200) { struct blk *nb = new_blk(&D, b->t, b->n, b->sz); memcpy(nb->p, b->p, b->sz); *s = nb->p; }
            else if (b && slots[k].n == 1 && (t == T_INT || t == T_LEAF || t == T_SUB || t == T_NODE) && b->t != T_OPQ && D.n < 200) { struct blk *nb = new_blk(&D, t, 1, tsize[t]); memcpy(nb->p, *s, tsize[t]); *s = nb->p; }
            break;
        case 2: /* another object of the same type */
            if (slots[k].pk == PK_ARR && slots[k].n == 1 && nobjs) { int c = 0; static int ix[2000]; for (int i = 0; i < nobjs; i++) if (objs[i].t == t) ix[c++] = i; if (c) { int j = ix[pbt_choose((uint64_t)c)]; if (find(&D, objs[j].a)) *s = objs[j].a; } }
            break;
        case 3: if (slots[k].pk == PK_UNK && keep_raw) { *s = (void *)((uintptr_t)0x7000 + pbt_choose(3)); } break;
    }
}

void pbt_case(void) {
    if (!generate()) { pbt_label("skipped: unfolding too large"); destroy(&S); return; }
    memset(&DV, 0, sizeof DV); memset(DP, 0, sizeof DP);
    clone();
    int nm = (int)pbt_weighted(4, (int[]){3, 6, 2, 1});
    for (int i = 0; i < nm; i++) { inventory(); if (pbt_bool()) mutate_scalar(); else mutate_ptr(); }
    /* the changed graph has to keep the domain: whole blocks, a bounded unfolding */
    bool ok = prune(DST, &D);
    struct canon t2 = canon(DST, &D, false, false, false), e2 = canon(DST, &D, false, true, false);
    struct canon t1 = canon(SRC, &S, false, false, false), e1 = canon(SRC, &S, false, true, false), g1 = canon(SRC, &S, true, false, false);
    if (!ok || t2.overflow || t2.wide) { pbt_label("skipped: unfolding too large"); goto end; }
    describe(&t1);
    pbt_note("%d changes; second graph:\n%.1500s\n", nm, t2.s);
    {
        bool same = strcmp(t1.s, t2.s) == 0, same_off = strcmp(e1.s, e2.s) == 0;
        metac_value_memory_map_mode_t mode = {.memory_block_mode = M.tree ? METAC_MMODE_tree : METAC_MMODE_dag, .unknown_ptr_mode = M.uptr, .union_mode = M.uni, .flex_array_mode = M.flex};
        metac_tag_map_t *map = M.mapb ? mapb : mapa;
        metac_value_t *sv = metac_new_value(entry(), SRC), *dv = metac_new_value(entry(), DST);
        bool defmode = !M.tree && M.uptr == METAC_UPTR_fail && M.uni == METAC_UNION_fail && M.flex == METAC_FLXARR_fail && pbt_bool();
        int r1 = metac_value_equal_ex(sv, dv, defmode ? NULL : &mode, map), r2 = metac_value_equal_ex(dv, sv, defmode ? NULL : &mode, map);
        if (t1.failed || t2.failed) {
            PBT_ASSERT("must-fail", r1 < 0 && r2 < 0, "compared (%d, %d) although something cannot be handled in this mode", r1, r2);
            pbt_label("has to fail");
        } else {
            PBT_ASSERT("symmetric", r1 == r2, "equal(a,b) = %d but equal(b,a) = %d", r1, r2);
            if (same && (M.tree || same_off)) {
                PBT_ASSERT("equal", r1 == 1, "the graphs are equal, result %d", r1); pbt_label(nm ? "equal after changes" : "equal"); }
            else if (!same) { PBT_ASSERT("differ", r1 == 0, "the graphs differ, result %d", r1); pbt_label("different"); }
            else pbt_label("same contents, other placement: not judged");
            if (g1.nblk >= 6) pbt_nontrivial();
            if (pbt_bool()) { int r = metac_value_equal_ex(sv, sv, &mode, map); PBT_ASSERT("reflexive", r == 1, "equal(a,a) = %d", r); }
        }
        metac_value_delete(sv); metac_value_delete(dv);
    }
end:
    free(t1.s); free(t2.s); free(e1.s); free(e2.s); free(g1.s);
    destroy(&D); destroy(&S);
}
#endif

#if PART == 4
static bool has_list;
static void obj_list(V *v, T t, void *a) { (void)v; (void)a; if (t == T_ITEM) has_list = true; }
void pbt_case(void) {
    if (!generate()) { pbt_label("skipped: unfolding too large"); destroy(&S); return; }
    struct canon t = canon(SRC, &S, false, false, false);
    static V v; memset(&v, 0, sizeof v); v.ptr = ptr_tree; v.obj = obj_list; v.cnt = 260; has_list = false; walk_root(&v, SRC);
    describe(&t);
    bool must_fail = t.failed || strchr(t.s, '^') || has_list;
    metac_value_t *sv = metac_new_value(entry(), SRC);
    char *s = metac_value_string_ex(sv, METAC_WMODE_deep, M.mapb ? mapb : mapa);
    PBT_ASSERT("result", (s == NULL) == must_fail, "deep printing gives %s, %s expected", s ? "text" : "NULL", must_fail ? "NULL (a cycle, a list link or an unknown union member)" : "text");
    if (s) {
        pbt_label("printed"); if (t.npointers >= 6) pbt_nontrivial();
        const char *dump = getenv("VF_DUMP");
        int fd = dump ? open(dump, O_WRONLY | O_APPEND | O_CREAT, 0600) : -1;
        if (fd >= 0) { /* one write, several processes append */
            size_t cap = strlen(s) + strlen(t.s) + 100; char *r = malloc(cap);
            int n = snprintf(r, cap, "%d %d %zu %zu\n%s\n%s\n", root_kind, M.mapb, strlen(s), strlen(t.s), s, t.s);
            if (write(fd, r, n) != n) abort();
            free(r); close(fd);
        }
    } else pbt_label("has to fail");
    free(s); metac_value_delete(sv); free(t.s);
    destroy(&S);
}
#endif
#if PART == 5
struct back { int kind, mapb; void *root; const char *want; };
#include CASES
void pbt_case(void) { }
int main(void) {
    out_cap = 1 << 22; OUT = malloc(out_cap);
    M.uptr = METAC_UPTR_as_values; M.uni = METAC_UNION_ignore; M.flex = METAC_FLXARR_ignore;
    for (size_t i = 0; i < sizeof cases / sizeof *cases; i++) {
        root_kind = cases[i].kind; M.mapb = cases[i].mapb;
        static V v; memset(&v, 0, sizeof v); v.ptr = ptr_tree; v.text = true; v.cnt = 100000;
        out_n = 0; OUT[0] = 0; walk_root(&v, cases[i].root);
        if (strcmp(OUT, cases[i].want)) printf("%zu %s\n", i, OUT);
    }
    return 0;
}
#endif
