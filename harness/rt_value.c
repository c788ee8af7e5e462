/* Runs inside a generated program: drives the value API on random memory images of the program's
 * variables and compares every effect with direct accesses made by compiler-generated getters and
 * setters.  VF_PART selects: scalar (plain members), bits (bit-fields), nav (navigation), print (dump). */
#include <stdio.h>
#include <stdlib.h>
#include <complex.h>
#include "pbt.h"
#include "metac/reflect.h"
#include "rt.h"

const char *pbt_name = "value";
int pbt_check_leaks = 1;
void X(const char *s) { (void)s; }
void XN(long long v) { (void)v; }

typedef int (*getf)(metac_value_t *, void *);
#define GS(T, n) static int get_##n(metac_value_t *v, void *p) { return metac_value_##n(v, (T *)p); } \
    static int set_##n(metac_value_t *v, void *p) { return metac_value_set_##n(v, *(T *)p); } \
    static int is_##n(metac_value_t *v, void *p) { (void)p; return metac_value_is_##n(v) != 0; } \
    static int eis_##n(metac_value_t *v, void *p) { (void)p; return metac_entry_is_##n(metac_value_entry(v)) != 0; }
typedef unsigned char uchar_; typedef unsigned short ushort_; typedef unsigned int uint_; typedef unsigned long ulong_;
typedef long long llong_; typedef unsigned long long ullong_; typedef long double ldouble_;
typedef float complex fc_; typedef double complex dc_; typedef long double complex ldc_;
GS(char, char) GS(uchar_, uchar) GS(short, short) GS(ushort_, ushort) GS(int, int) GS(uint_, uint) GS(long, long) GS(ulong_, ulong)
GS(llong_, llong) GS(ullong_, ullong) GS(bool, bool) GS(float, float) GS(double, double) GS(ldouble_, ldouble)
GS(fc_, float_complex) GS(dc_, double_complex) GS(ldc_, ldouble_complex)
/* the order of BASES in tgen.py; "signed char" has no typed accessor of its own */
#define R(n, sz) {#n, sz, get_##n, set_##n, is_##n, eis_##n}
static const struct api { const char *n; int size; getf get, set, is, eis; } apis[] = {
    R(char, 1), R(uchar, 1), {"schar", 1, 0, 0, 0, 0}, R(short, 2), R(ushort, 2), R(int, 4), R(uint, 4), R(long, 8), R(ulong, 8), R(llong, 8), R(ullong, 8),
    R(bool, 1), R(float, 4), R(double, 8), R(ldouble, 16), R(float_complex, 8), R(double_complex, 16), R(ldouble_complex, 32),
};
#define NAPI ((int)(sizeof apis / sizeof apis[0]))
#define API_SCHAR 2
#define API_BOOL 11
#define API_FLOAT 12

static metac_value_t *walk(metac_value_t *v, const int *st, int n) {   /* consumes v */
    for (int i = 0; i < n && v; i++) {
        metac_value_t *x = st[i] >= VF_STEP_ELEM ? metac_new_value_by_element_id(v, st[i] - VF_STEP_ELEM) : metac_new_value_by_member_id(v, st[i]);
        metac_value_delete(v);
        v = x;
    }
    return v;
}

/* a value of the leaf's type, in `out' (32 zeroed bytes) */
static void random_leaf(const struct vf_leaf *l, unsigned char *out, bool pr) {
    memset(out, 0, 32);
    if (l->kind == VF_PTR) {
        uint64_t u = pbt_chance(1, 3) ? 0 : pbt_u64();
        memcpy(out, &u, 8);
        return;
    }
    if (l->kind == VF_ENUM) {
        long long v = pbt_chance(2, 3) ? l->ec[pbt_choose(l->nec)].v : (long long)pbt_u64();
        int b = l->bits ? l->bits : l->size * 8;
        if (b < 64) v = l->esigned ? (long long)((uint64_t)v << (64 - b)) >> (64 - b) : (long long)((uint64_t)v & ((1ull << b) - 1));
        memcpy(out, &v, l->size);
        return;
    }
    switch (l->api) {
    case API_BOOL: out[0] = pbt_bool(); break;
    case 12: case 13: case 14: case 15: case 16: case 17: {
        int cx = l->api >= 15, k = (l->api - 12) % 3;
        for (int i = 0; i <= cx; i++) {
            double d;
            if (!pr && pbt_chance(1, 3)) { uint64_t u = pbt_raw64(); if (k == 0) { uint32_t w = (uint32_t)u; if ((w & 0x7f800000) == 0x7f800000) w &= 0xff7fffff; memcpy(out + 4 * i, &w, 4); continue; }
                if ((u >> 52 & 0x7ff) == 0x7ff) u &= ~(1ull << 62);
                memcpy(&d, &u, 8); }
            else d = (double)(int64_t)pbt_range(-1000000, 1000000) / (double)(1 << pbt_choose(12));
            if (k == 0) { float f = (float)d; memcpy(out + 4 * i, &f, 4); }
            else if (k == 1) memcpy(out + 8 * i, &d, 8);
            else { long double ld = d; if (!pr && pbt_bool()) ld = ld / 3; memcpy(out + 16 * i, &ld, 10); }
        }
        break; }
    default: {
        uint64_t u = pbt_u64();
        if (pr && l->api == 0 && !l->bits && pbt_chance(2, 3)) u = pbt_chance(1, 4) ? (unsigned char)"'\\\"?%\n"[pbt_choose(6)] : (uint64_t)pbt_range(32, 126);
        if (l->bits) { int b = l->bits; bool sg = l->api == 0 || l->api == API_SCHAR || (l->api >= 3 && l->api <= 10 && (l->api & 1));
            if (b < 64) u = sg ? (uint64_t)((int64_t)(u << (64 - b)) >> (64 - b)) : u & ((1ull << b) - 1); }
        memcpy(out, &u, l->size);
    } }
}
/* equality of two leaf values up to padding bytes of long double */
static bool same_leaf(const struct vf_leaf *l, const unsigned char *a, const unsigned char *b) {
    if (l->kind == VF_BASE && (l->api == 14 || l->api == 17))
        return !memcmp(a, b, 10) && (l->api == 14 || !memcmp(a + 16, b + 16, 10));
    return !memcmp(a, b, l->size);
}
static void fix_padding(const struct vf_leaf *l, unsigned char *img, const unsigned char *from) {
    if (l->kind == VF_BASE && (l->api == 14 || l->api == 17)) {
        memcpy(img + l->off + 10, from + l->off + 10, 6);
        if (l->api == 17) memcpy(img + l->off + 26, from + l->off + 26, 6);
    }
}
static char *hex(const unsigned char *p, int n) { static char b[4][80]; static int k; char *r = b[k++ & 3]; for (int i = 0; i < n; i++) sprintf(r + 2 * i, "%02x", p[i]); r[2 * n] = 0; return r; }

static const struct vf_var *pick_var(int bits) {
    /* a variable having a leaf of the wanted sort */
    int ok[512], n = 0;
    for (int i = 0; i < vf_nvars && n < 512; i++) {
        if (!vf_vars[i].entry()) continue;
        int has = 0;
        for (int k = 0; k < vf_vars[i].nleaves; k++) has |= (vf_vars[i].leaves[k].bits != 0) == bits;
        if (bits < 0 ? vf_vars[i].nnodes > 0 : has) ok[n++] = i;
    }
    return n ? &vf_vars[ok[pbt_choose(n)]] : NULL;
}

static unsigned char *new_image(const struct vf_var *v) {
    unsigned char *m = malloc(v->size ? v->size : 1);
    if (pbt_chance(1, 4)) memset(m, pbt_bool() ? 0xff : 0, v->size);
    else { uint64_t s = pbt_raw64(); for (size_t i = 0; i < v->size; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; m[i] = s >> 56; } }
    return m;
}
static void show_diff(const char *key, const struct vf_leaf *l, const unsigned char *want, const unsigned char *got, size_t n) {
    for (size_t i = 0; i < n; i++) if (want[i] != got[i]) pbt_fail(key, "%s: byte %zu is %02x instead of %02x", l->path, i, got[i], want[i]);
}

/* what a value says about its type is what its entry says */
static void mirror(metac_value_t *x, const char *path) {
    metac_entry_t *e = metac_value_entry(x), *f;
    metac_quals_t q, g;
    memset(&q, 0, sizeof q); memset(&g, 0, sizeof g);
    f = metac_entry_final_entry(e, &q);
    PBT_ASSERT("mirror-kind", f && metac_value_kind(x) == metac_entry_kind(e) && metac_value_final_kind(x, NULL) == metac_entry_kind(f) && metac_value_final_kind(x, &g) == metac_entry_kind(f), "%s: kind", path);
    PBT_ASSERT("mirror-quals", q.flags == g.flags, "%s: qualifiers %d instead of %d", path, (int)g.flags, (int)q.flags);
    const char *n = metac_value_name(x), *m = metac_entry_name(e);
    PBT_ASSERT("mirror-name", n == m || (n && m && !strcmp(n, m)), "%s: name", path);
    PBT_ASSERT("mirror-pointer", !metac_value_is_void_pointer(x) == !metac_entry_is_void_pointer(f) && !metac_value_is_declaration_pointer(x) == !metac_entry_is_declaration_pointer(f) &&
        !metac_value_is_pointer(x) == !metac_entry_is_pointer(f), "%s: pointer", path);
    PBT_ASSERT("mirror-load", !metac_value_has_parameter_load(x) && !metac_entry_has_parameter_load(e) && metac_value_parameter_count(x) <= 0, "%s: has parameters", path);
    if (metac_entry_is_enumeration(f)) {
        metac_num_t k = metac_entry_enumeration_info_size(f), i = k > 0 ? (metac_num_t)pbt_choose(k) : 0;
        PBT_ASSERT("mirror-enum", k == metac_value_enumeration_info_size(x) && metac_value_enumeration_info(x, i) == metac_entry_enumeration_info(f, i), "%s: enumerators", path);
        PBT_ASSERT("mirror-enum", metac_value_enumeration_info(x, k) == NULL && metac_value_enumeration_info(x, -1) == NULL, "%s: enumerators out of range", path);
    }
    if (metac_entry_is_base_type(f)) {
        metac_size_t sz = 0, s2 = 0; metac_encoding_t en = 0;
        PBT_ASSERT("mirror-base", !metac_entry_base_type_byte_size(f, &sz) && !metac_entry_byte_size(f, &s2) && sz == s2 && !metac_entry_base_type_encoding(f, &en), "%s: base type", path);
        const char *bn = metac_entry_base_type_name(f);
        PBT_ASSERT("mirror-check", !metac_value_check_base_type(x, bn, en, sz) && !metac_entry_check_base_type(f, bn, en, sz), "%s: its own base type %s is refused", path, bn);
        PBT_ASSERT("mirror-check", metac_value_check_base_type(x, bn, en, sz + 1) && metac_value_check_base_type(x, "no such type", en, sz) && metac_value_check_base_type(x, bn, METAC_ENC_undefined, sz), "%s: another base type is accepted", path);
    }
}
/* comparing and copying between two leaves of any types, which may be of different variables */
static void cross(const struct vf_leaf *l, metac_value_t *x, const unsigned char *c1, int fl) {
    const struct vf_var *v = &vf_vars[pbt_choose(vf_nvars)];
    if (!v->entry() || !v->nleaves) return;
    const struct vf_leaf *k = &v->leaves[pbt_choose(v->nleaves)];
    for (int i = 0; i < 8 && !(k->kind == l->kind && k->api == l->api && k != l) && pbt_chance(7, 8); i++) k = &v->leaves[pbt_choose(v->nleaves)];
    unsigned char b[32], c2[32] = {0};
    unsigned char *img = new_image(v), *ref = malloc(v->size ? v->size : 1);
    random_leaf(k, b, false);
    bool same = k->kind == l->kind && k->api == l->api && (l->kind != VF_ENUM || (k->size == l->size && k->esigned == l->esigned));
    if (same && !k->bits && pbt_bool()) memcpy(b, c1, 32);
    k->set(img, b);
    k->get(img, c2);
    memcpy(ref, img, v->size);
    metac_value_t *y = walk(metac_new_value(v->entry(), img), k->steps, k->nsteps);
    PBT_ASSERT("walk", y != NULL, "%s: not reachable", k->path);
    int want = same ? same_leaf(l, c1, c2) : -1, how = (int)pbt_choose(3), got;
    if (same && fl) want = -2;
    if (same) how = l->kind == VF_ENUM ? 0 : l->kind == VF_PTR ? 1 : 2;
    if (how == 0 && l->kind == VF_ENUM && k->kind == VF_ENUM && !same) goto out;
    pbt_note("with %s\n", k->path);
    got = how == 0 ? metac_value_equal_enumeration(x, y) : how == 1 ? metac_value_equal_pointer(x, y) : metac_value_equal_base_type(x, y);
    if (want >= 0) PBT_ASSERT("cross-equal", got == want, "%s and %s: %s and %s compared: %d", l->path, k->path, hex(c1, l->size), hex(c2, k->size), got);
    else if (want == -1 && !(how == 1 && l->kind == VF_PTR && k->kind == VF_PTR)) PBT_ASSERT("cross-equal", got < 0, "%s and %s of different types compared: %d", l->path, k->path, got);
    show_diff("cross-equal", k, ref, img, v->size);
    if (!same) {
        if (how != 1 || l->kind != VF_PTR || k->kind != VF_PTR) {
            metac_value_t *r = how == 0 ? metac_value_copy_enumeration(x, y) : how == 1 ? metac_value_copy_pointer(x, y) : metac_value_copy_base_type(x, y);
            PBT_ASSERT("cross-copy", r == NULL, "%s copied to %s of a different type", l->path, k->path);
            show_diff("cross-copy", k, ref, img, v->size);
            pbt_label("other type");
        }
    } else if (!k->cst) {
        metac_value_t *r = how == 0 ? metac_value_copy_enumeration(x, y) : how == 1 ? metac_value_copy_pointer(x, y) : metac_value_copy_base_type(x, y);
        unsigned char t[32] = {0};
        memcpy(t, c1, 32);
        k->set(ref, t); if (!k->bits) fix_padding(k, ref, img);
        PBT_ASSERT("cross-copy", r == y, "%s not copied to %s", l->path, k->path);
        show_diff("cross-copy", k, ref, img, v->size);
        pbt_label("same type elsewhere");
    }
out:
    metac_value_delete(y);
    free(img); free(ref);
}

static void case_leaf(int bits) {
    const struct vf_var *v = pick_var(bits);
    if (!v) { pbt_note("no such leaf"); return; }
    int li[512], n = 0;
    for (int i = 0; i < v->nleaves; i++) if ((v->leaves[i].bits != 0) == bits) li[n++] = i;
    const struct vf_leaf *l = &v->leaves[li[pbt_choose(n)]];
    pbt_note("leaf %s kind %d api %s bits %d const %d\n", l->path, l->kind, l->api >= 0 ? apis[l->api].n : "-", l->bits, l->cst);
    unsigned char a[32], b[32], r[64];
    unsigned char *img = new_image(v), *ref = malloc(v->size ? v->size : 1);
    random_leaf(l, a, false); random_leaf(l, b, false);
    l->set(img, a);
    memcpy(ref, img, v->size);
    metac_value_t *root = metac_new_value(v->entry(), img);
    metac_value_t *x = walk(root, l->steps, l->nsteps);
    PBT_ASSERT("walk", x != NULL, "%s: not reachable through the value API", l->path);
    if (!bits) PBT_ASSERT("addr", metac_value_addr(x) == img + l->off, "%s: address off by %ld", l->path, (long)((unsigned char *)metac_value_addr(x) - (img + l->off)));
    memset(r, 0xa5, sizeof r);
    if (l->kind == VF_ENUM) {
        metac_const_value_t e = 0, want = 0, w2 = 0;
        if (l->esigned) { int64_t t = 0; memcpy(&t, a, l->size); want = (int64_t)((uint64_t)t << (64 - 8 * l->size)) >> (64 - 8 * l->size); memcpy(&t, b, l->size); w2 = (int64_t)((uint64_t)t << (64 - 8 * l->size)) >> (64 - 8 * l->size); }
        else { memcpy(&want, a, l->size); memcpy(&w2, b, l->size); }
        int rc = metac_value_enumeration(x, &e);
        PBT_ASSERT("enum-read", rc == 0 && e == want, "%s: read %d value %lld instead of %lld", l->path, rc, (long long)e, (long long)want);
        metac_num_t num = 0;
        rc = metac_value_num(x, &num);
        PBT_ASSERT("num", rc == 0 && num == (metac_num_t)want, "%s: as number: %d %lld instead of %lld", l->path, rc, (long long)num, (long long)want);
        const char *nm = metac_value_enumeration_to_name(x, e), *wn = NULL; int any = 0;
        for (int i = 0; i < l->nec; i++) if (l->ec[i].v == want) { any = 1; if (nm && !strcmp(nm, l->ec[i].name)) wn = nm; }
        PBT_ASSERT("enum-name", any ? wn != NULL : nm == NULL, "%s: value %lld named %s", l->path, (long long)want, nm ? nm : "(none)");
        char *s = metac_value_enumeration_string(x), t[40];
        snprintf(t, sizeof t, "%lld", (long long)want);
        PBT_ASSERT("enum-string", s && !strcmp(s, any ? nm : t), "%s: value %lld printed as %s", l->path, (long long)want, s ? s : "(null)");
        free(s);
        PBT_ASSERT("enum-kind", metac_value_is_enumeration(x) && !metac_value_is_base_type(x) && !metac_value_is_pointer(x), "%s: kind", l->path);
        if (!l->cst) {
            rc = metac_value_set_enumeration(x, w2);
            l->set(ref, b);
            PBT_ASSERT("enum-write", rc == 0, "%s: write failed %d", l->path, rc);
            show_diff("enum-write", l, ref, img, v->size);
        }
    } else if (l->kind == VF_PTR) {
        void *p = (void *)1, *want, *w2;
        memcpy(&want, a, 8); memcpy(&w2, b, 8);
        int rc = metac_value_pointer(x, &p);
        PBT_ASSERT("ptr-read", rc == 0 && p == want, "%s: read %d %p instead of %p", l->path, rc, p, want);
        PBT_ASSERT("ptr-kind", metac_value_is_pointer(x) && !metac_value_is_base_type(x) && !metac_value_is_enumeration(x), "%s: kind", l->path);
        if (!l->cst) {
            rc = metac_value_set_pointer(x, w2);
            l->set(ref, b);
            PBT_ASSERT("ptr-write", rc == 0, "%s: write failed %d", l->path, rc);
            show_diff("ptr-write", l, ref, img, v->size);
        }
    } else {
        const struct api *ap = &apis[l->api];
        for (int i = 0; i < NAPI; i++) if (apis[i].is) {
            PBT_ASSERT("is", apis[i].is(x, 0) == (i == l->api) && apis[i].eis(x, 0) == (i == l->api), "%s: is_%s says %d for %s", l->path, apis[i].n, apis[i].is(x, 0), ap->n);
        }
        if (ap->get) {
            int rc = ap->get(x, r);
            PBT_ASSERT("read", rc == 0, "%s: read failed %d", l->path, rc);
            PBT_ASSERT("read", same_leaf(l, r, a), "%s: read %s instead of %s", l->path, hex(r, l->size), hex(a, l->size));
            PBT_ASSERT("read", r[l->size] == 0xa5 && r[l->size + 1] == 0xa5, "%s: read wrote past the variable", l->path);
        } else {
            int rc = metac_value_base_type(x, "signed char", METAC_ENC_signed_char, r, 1);
            PBT_ASSERT("read", rc == 0 && r[0] == a[0] && r[1] == 0xa5, "%s: generic read %d %02x instead of %02x", l->path, rc, r[0], a[0]);
        }
        show_diff("read-wrote", l, ref, img, v->size);
        if (l->api < API_FLOAT) {
            metac_num_t num = 0; int64_t want = 0; int rc = metac_value_num(x, &num);
            memcpy(&want, a, l->size);
            bool sg = l->api == 0 || l->api == API_SCHAR || (l->api >= 3 && l->api <= 10 && (l->api & 1));
            if (sg && l->size < 8) want = (int64_t)((uint64_t)want << (64 - 8 * l->size)) >> (64 - 8 * l->size);
            PBT_ASSERT("num", rc == 0 && num == (metac_num_t)want, "%s: as number: %d %lld instead of %lld", l->path, rc, (long long)num, (long long)want);
        }
        /* every accessor of another type is refused and touches nothing */
        int o = (int)pbt_choose(NAPI);
        if (apis[o].get && o != l->api) {
            unsigned char c[64];
            memset(r, 0x5a, sizeof r); memset(c, 0x5a, sizeof c);
            int rc = apis[o].get(x, r);
            PBT_ASSERT("wrong-read", rc != 0 && !memcmp(r, c, sizeof r), "%s: read as %s gave %d", l->path, apis[o].n, rc);
            memset(r, 0, sizeof r); pbt_bytes(r, 8); if (o == API_BOOL) r[0] &= 1;
            rc = apis[o].set(x, r);
            PBT_ASSERT("wrong-write", rc != 0, "%s: write as %s gave %d", l->path, apis[o].n, rc);
            show_diff("wrong-write", l, ref, img, v->size);
        }
        if (ap->set) {
            int rc = ap->set(x, b);
            if (l->cst) { PBT_ASSERT("const", rc != 0, "%s: constant was written", l->path); pbt_label("constant"); }
            else { PBT_ASSERT("write", rc == 0, "%s: write failed %d", l->path, rc); l->set(ref, b); if (!bits) fix_padding(l, ref, img); }
            show_diff(l->cst ? "const" : "write", l, ref, img, v->size);
        } else if (!l->cst) {
            int rc = metac_value_set_base_type(x, "signed char", METAC_ENC_signed_char, b, 1);
            PBT_ASSERT("write", rc == 0, "%s: generic write failed %d", l->path, rc);
            l->set(ref, b);
            show_diff("write", l, ref, img, v->size);
        }
    }
    /* compare with and copy to a second object */
    unsigned char *img2 = new_image(v), *ref2 = malloc(v->size ? v->size : 1);
    l->set(img2, pbt_bool() ? b : a);
    memcpy(ref2, img2, v->size);
    metac_value_t *x2 = walk(metac_new_value(v->entry(), img2), l->steps, l->nsteps);
    PBT_ASSERT("walk", x2 != NULL, "%s: not reachable", l->path);
    unsigned char c1[32] = {0}, c2[32] = {0};
    l->get(img, c1); l->get(img2, c2);
    int eq;
    if (l->kind == VF_BASE && l->api >= API_FLOAT) {
        long double p[2] = {0}, q[2] = {0};
        int k = (l->api - 12) % 3, cx = l->api >= 15;
        for (int i = 0; i <= cx; i++) {
            if (k == 0) { float f; memcpy(&f, c1 + 4 * i, 4); p[i] = f; memcpy(&f, c2 + 4 * i, 4); q[i] = f; }
            else if (k == 1) { double f; memcpy(&f, c1 + 8 * i, 8); p[i] = f; memcpy(&f, c2 + 8 * i, 8); q[i] = f; }
            else { memcpy(&p[i], c1 + 16 * i, 16); memcpy(&q[i], c2 + 16 * i, 16); }
        }
        eq = p[0] == q[0] && p[1] == q[1];
    } else eq = same_leaf(l, c1, c2);
    int ge = l->kind == VF_ENUM ? metac_value_equal_enumeration(x, x2) : l->kind == VF_PTR ? metac_value_equal_pointer(x, x2) : metac_value_equal_base_type(x, x2);
    PBT_ASSERT("equal", ge == eq, "%s: compared %s and %s: %d instead of %d", l->path, hex(c1, l->size), hex(c2, l->size), ge, eq);
    if (!l->cst) {
        metac_value_t *cr = l->kind == VF_ENUM ? metac_value_copy_enumeration(x, x2) : l->kind == VF_PTR ? metac_value_copy_pointer(x, x2) : metac_value_copy_base_type(x, x2);
        l->set(ref2, c1); if (!bits) fix_padding(l, ref2, img2);
        PBT_ASSERT("copy", cr == x2, "%s: copy failed", l->path);
        show_diff("copy", l, ref2, img2, v->size);
        show_diff("copy-src", l, ref, img, v->size);
    }
    mirror(x, l->path);
    cross(l, x, c1, l->kind == VF_BASE && l->api >= API_FLOAT);
    show_diff("cross-src", l, ref, img, v->size);
    metac_value_delete(x2); metac_value_delete(x);
    free(img); free(img2); free(ref); free(ref2);
    pbt_nontrivial();
    pbt_label(l->kind == VF_ENUM ? "enum" : l->kind == VF_PTR ? "pointer" : apis[l->api].n);
}

/* the same member through a path of numbers and names, from the variable's type */
static void by_path(const struct vf_var *v, const char *path, const int *st, int n) {
    metac_entry_id_t id[64];
    if (n < 1 || n > 64) return;
    for (int i = 0; i < n; i++) if (st[i] >= VF_STEP_ELEM) return;
    metac_entry_t *root = metac_entry_final_entry(v->entry(), NULL), *e = root;
    for (int i = 0; i < n; i++) {
        e = metac_entry_by_member_id(metac_entry_final_entry(e, NULL), st[i]);
        PBT_ASSERT("path-step", e != NULL, "%s: step %d", path, i);
        id[i].n = metac_entry_name(e) && pbt_bool() ? (char *)metac_entry_name(e) : NULL;
        id[i].i = id[i].n ? (int)pbt_choose(3) : st[i];
    }
    PBT_ASSERT("path", metac_entry_by_member_ids(root, 0, id, n) == e, "%s: the path leads elsewhere", path);
    PBT_ASSERT("path-final", metac_entry_by_member_ids(root, 1, id, n) == metac_entry_final_entry(e, NULL), "%s: the path leads elsewhere", path);
    int k = (int)pbt_choose(n);
    if (pbt_bool()) id[k].n = "no such member"; else { id[k].n = NULL; id[k].i = pbt_bool() ? -1 : 100000; }
    PBT_ASSERT("path-wrong", metac_entry_by_member_ids(root, 0, id, n) == NULL, "%s: a wrong path leads somewhere", path);
    if (n > 1) pbt_label("path of several members");
}

/* an array or what a pointer leads to, seen as n elements: any n, elements are places, not contents */
static void recounted(metac_value_t *x, unsigned char *base, size_t esize, const char *path) {
    static const int special[] = {0, 1, 2, 127, 128, 255, 256, 4097, 32767, 32768, 65535, 65536, 65537, 100003, 1 << 20, (1 << 24) + 1, INT32_MAX - 1};
    int n = pbt_bool() ? special[pbt_choose(sizeof(special) / sizeof(special[0]))] : (int)pbt_choose(pbt_bool() ? 20 : 3000000);
    metac_value_t *y = metac_new_element_count_value(x, n);
    PBT_ASSERT("recount", y != NULL && metac_value_has_elements(y) && metac_value_element_count(y) == n && !metac_value_element_count_flexible(y) && metac_value_addr(y) == base, "%s: not seen as %d elements", path, n);
    for (int k = 0; k < 4 && n; k++) {
        int i = k == 0 ? n - 1 : k == 1 ? n / 2 : (int)pbt_choose(n);
        metac_value_t *m = metac_new_value_by_element_id(y, i);
        PBT_ASSERT("recount", m != NULL && (unsigned char *)metac_value_addr(m) == base + i * (int64_t)esize, "%s: element %d of %d at %ld instead of %lld", path, i, n, m ? (long)((unsigned char *)metac_value_addr(m) - base) : 0, (long long)(i * (int64_t)esize));
        metac_value_delete(m);
    }
    PBT_ASSERT("recount", metac_new_value_by_element_id(y, n) == NULL && metac_new_value_by_element_id(y, -1) == NULL && metac_new_value_by_element_id(y, n + 1) == NULL && metac_new_value_by_element_id(y, INT32_MIN) == NULL, "%s: elements beyond %d", path, n);
    metac_value_delete(y);
    if (n > 65536) pbt_label("more than 65536 elements");
}

static void case_nav(void) {
    const struct vf_var *v = pick_var(-1);
    if (!v) { pbt_note("no aggregate"); return; }
    const struct vf_node *nd = &v->nodes[pbt_choose(v->nnodes)];
    size_t extra = v->flex ? 256 : 0;
    by_path(v, nd->path, nd->steps, nd->nsteps);
    if (v->nleaves) { const struct vf_leaf *l = &v->leaves[pbt_choose(v->nleaves)]; by_path(v, l->path, l->steps, l->nsteps); }
    unsigned char *img = malloc(v->size + extra + 1);
    memset(img, 0, v->size + extra + 1);
    pbt_note("node %s %s of %d\n", nd->path, nd->kind == VF_AGG ? "aggregate" : "array", nd->count);
    metac_value_t *x = walk(metac_new_value(v->entry(), img), nd->steps, nd->nsteps);
    PBT_ASSERT("walk", x != NULL, "%s: not reachable", nd->path);
    PBT_ASSERT("addr", metac_value_addr(x) == img + nd->off, "%s: address off by %ld", nd->path, (long)((unsigned char *)metac_value_addr(x) - (img + nd->off)));
    mirror(x, nd->path);
    if (nd->kind == VF_AGG) {
        PBT_ASSERT("kind", metac_value_has_members(x) && !metac_value_has_elements(x) && !metac_value_is_base_type(x) && !metac_value_is_pointer(x) && !metac_value_is_enumeration(x), "%s: kind", nd->path);
        PBT_ASSERT("count", metac_value_member_count(x) == nd->count, "%s: %d members instead of %d", nd->path, (int)metac_value_member_count(x), nd->count);
        for (int i = 0; i < nd->count; i++) {
            metac_value_t *m = metac_new_value_by_member_id(x, i);
            PBT_ASSERT("member", m != NULL, "%s: member %d", nd->path, i);
            const char *nm = metac_value_name(m);
            PBT_ASSERT("member-name", nd->mem[i].name ? nm && !strcmp(nm, nd->mem[i].name) : nm == NULL, "%s: member %d named %s", nd->path, i, nm ? nm : "(none)");
            if (nd->mem[i].off >= 0) PBT_ASSERT("member-addr", metac_value_addr(m) == img + nd->off + nd->mem[i].off, "%s: member %d at %ld instead of %ld", nd->path, i, (long)((unsigned char *)metac_value_addr(m) - img - nd->off), nd->mem[i].off);
            metac_value_t *c = metac_new_value_from_value(m);
            PBT_ASSERT("value-copy", c && metac_value_addr(c) == metac_value_addr(m) && metac_value_entry(c) == metac_value_entry(m), "%s: copy of the handle differs", nd->path);
            metac_value_delete(c);
            metac_value_delete(m);
        }
        int64_t bad = pbt_bool() ? nd->count + (int64_t)pbt_choose(1000) : -1 - (int64_t)pbt_choose(1000);
        if (pbt_chance(1, 8)) bad = pbt_bool() ? INT32_MAX : INT32_MIN;
        metac_value_t *m = metac_new_value_by_member_id(x, (metac_num_t)bad);
        PBT_ASSERT("range", m == NULL, "%s: member %lld exists", nd->path, (long long)bad);
        PBT_ASSERT("range", metac_new_value_by_element_id(x, 0) == NULL, "%s: aggregate has elements", nd->path);
    } else {
        metac_value_t *y = x;
        int n = nd->count;
        PBT_ASSERT("kind", metac_value_has_elements(x) && !metac_value_has_members(x) && !metac_value_is_base_type(x) && !metac_value_is_pointer(x), "%s: kind", nd->path);
        PBT_ASSERT("count", metac_value_element_count(x) == n, "%s: %d elements instead of %d", nd->path, (int)metac_value_element_count(x), n);
        PBT_ASSERT("flexible", (metac_value_element_count_flexible(x) != 0) == (n < 0), "%s: flexible", nd->path);
        if (n < 0) {
            PBT_ASSERT("range", metac_new_value_by_element_id(x, 0) == NULL, "%s: element of an array of unknown length", nd->path);
            n = (int)pbt_choose(9);
            y = metac_new_element_count_value(x, n);
            PBT_ASSERT("recount", y && metac_value_element_count(y) == n && metac_value_addr(y) == metac_value_addr(x), "%s: array of %d not created", nd->path, n);
            pbt_label("flexible");
        } else if (pbt_chance(1, 4) && n > 0) {
            n = (int)pbt_choose(n) + 1;
            y = metac_new_element_count_value(x, n);
            PBT_ASSERT("recount", y && metac_value_element_count(y) == n && metac_value_addr(y) == metac_value_addr(x), "%s: array of %d not created", nd->path, n);
        }
        for (int i = 0; i < n; i++) {
            if (n > 100 && i > 10 && i < n - 10) i += pbt_chance(1, 3) ? (int)pbt_choose(n - 10 - i) : n - 10 - i;
            metac_value_t *m = metac_new_value_by_element_id(y, i);
            PBT_ASSERT("element", m != NULL, "%s: element %d", nd->path, i);
            PBT_ASSERT("element-addr", metac_value_addr(m) == img + nd->off + i * nd->esize, "%s: element %d at %ld instead of %ld", nd->path, i, (long)((unsigned char *)metac_value_addr(m) - img - nd->off), (long)(i * nd->esize));
            metac_value_delete(m);
        }
        int64_t bad = pbt_bool() ? n + (int64_t)pbt_choose(1000) : -1 - (int64_t)pbt_choose(1000);
        if (pbt_chance(1, 8)) bad = pbt_bool() ? INT32_MAX : INT32_MIN;
        PBT_ASSERT("range", metac_new_value_by_element_id(y, (metac_num_t)bad) == NULL, "%s: element %lld of %d exists", nd->path, (long long)bad, n);
        PBT_ASSERT("range", metac_new_value_by_member_id(y, 0) == NULL, "%s: array has members", nd->path);
        if (y != x) metac_value_delete(y);
        if (pbt_chance(1, 3)) recounted(x, img + nd->off, nd->esize, nd->path);
    }
    metac_value_delete(x);
    if (v->nleaves && pbt_chance(1, 3)) {
        const struct vf_leaf *l = &v->leaves[pbt_choose(v->nleaves)];
        if (l->kind == VF_PTR && l->tsize) {
            unsigned char *to = pbt_chance(1, 5) ? NULL : (unsigned char *)(uintptr_t)(pbt_bool() ? 0x100000000000ull + pbt_choose(1000000) : 1 + pbt_choose(100));
            metac_value_t *p = walk(metac_new_value(v->entry(), img), l->steps, l->nsteps);
            PBT_ASSERT("walk", p != NULL, "%s: not reachable", l->path);
            l->set(img, &to);
            if (to) recounted(p, to, l->tsize, l->path);
            else PBT_ASSERT("recount", metac_new_element_count_value(p, (metac_num_t)pbt_choose(5)) == NULL, "%s: NULL has elements", l->path);
            metac_value_delete(p);
            pbt_label("pointer re-counted");
        }
    }
    free(img);
    if (nd->count > 1 || nd->count < 0) pbt_nontrivial();
    pbt_label(nd->kind == VF_AGG ? "aggregate" : "array");
}

/* print: the string of a random image, written for the second step (compiling it back) */
static void case_print(void) {
    FILE *f = NULL;
    const struct vf_var *v = &vf_vars[pbt_choose(vf_nvars)];
    if (pbt_chance(1, 4)) {        /* rather one with a text */
        int from = (int)pbt_choose(vf_nvars);
        for (int k = 0; k < vf_nvars; k++) {
            const struct vf_var *w = &vf_vars[(from + k) % vf_nvars];
            int text = 0;
            for (int i = 0; i < w->nnodes; i++) text |= w->nodes[i].chars && w->nodes[i].count > 2;
            if (text && w->nleaves < 300 && w->entry() && !w->flex) { v = w; break; }
        }
    }
    if (!v->entry() || v->flex || v->size == 0) { pbt_note("skipped"); return; }
    unsigned char *img = calloc(1, v->size), a[32];
    for (int i = 0; i < v->nleaves; i++) { random_leaf(&v->leaves[i], a, true); if (v->leaves[i].kind == VF_PTR && pbt_chance(2, 3)) memset(a, 0, 8); v->leaves[i].set(img, a); }
    for (int i = 0; i < v->nnodes; i++) {     /* texts, with zeros and odd characters inside */
        const struct vf_node *nd = &v->nodes[i];
        if (!nd->chars || nd->count < 1 || pbt_chance(1, 5)) continue;
        static const char al[] = "01789aAnxF'\\\"?%\n\r\t\v\b\f\a\033\177\377\200";
        int odd = pbt_chance(1, 3), zeros = pbt_chance(1, 3), len = (int)pbt_choose(nd->count + 1);
        for (int k = 0; k < nd->count; k++) img[nd->off + k] = k >= len ? 0 : zeros && pbt_chance(1, 4) ? 0 : (unsigned char)al[pbt_choose(odd ? sizeof al - 1 : 22)];
        if (pbt_chance(3, 4)) img[nd->off + nd->count - 1] = 0;
        pbt_label("text");
    }
    metac_value_t *x = metac_new_value(v->entry(), img);
    char *s = metac_value_string_ex(x, METAC_WMODE_shallow, NULL);
    PBT_ASSERT("print", s != NULL, "%s: no string", v->name);
    pbt_note("%s\n", s);
    if (getenv("VF_DUMP") && (f = fopen(getenv("VF_DUMP"), "a"))) {
        fprintf(f, "%d\t", (int)(v - vf_vars));
        for (size_t i = 0; i < v->size; i++) fprintf(f, "%02x", img[i]);
        fprintf(f, "\t%s\n", s);
        fclose(f);
    }
    free(s); free(img);
    metac_value_delete(x);
    pbt_nontrivial();
}

void pbt_case(void) {
    const char *p = getenv("VF_PART");
    if (p && !strcmp(p, "bits")) case_leaf(1);
    else if (p && !strcmp(p, "nav")) case_nav();
    else if (p && !strcmp(p, "print")) case_print();
    else case_leaf(0);
}
