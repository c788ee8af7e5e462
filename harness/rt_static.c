/* Runs inside a generated program: compares what the reflection says with the compiler's own facts.
 * usage: prog desc | cdecl     output: one line per comparison, "OK <group> <what>" or "FAIL <group> <what>\texpected\tgot" */
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include "metac/reflect.h"
#include "rt.h"

struct metac_db *vf_db(void);

static char *ebuf; static size_t elen, ecap;
static char *gbuf; static size_t glen, gcap;
static void put(char **b, size_t *l, size_t *c, const char *s) {
    size_t n = strlen(s);
    if (*l + n + 1 > *c) { *c = (*l + n + 1) * 2; *b = realloc(*b, *c); }
    memcpy(*b + *l, s, n + 1); *l += n;
}
void X(const char *s) { put(&ebuf, &elen, &ecap, s); }
void XN(long long v) { char t[32]; snprintf(t, sizeof t, "%lld", v); X(t); }
static void G(const char *s) { put(&gbuf, &glen, &gcap, s); }
static void GF(const char *fmt, ...) { char t[512]; va_list ap; va_start(ap, fmt); vsnprintf(t, sizeof t, fmt, ap); va_end(ap); G(t); }
static void reset(void) { elen = glen = 0; if (ebuf) ebuf[0] = 0; if (gbuf) gbuf[0] = 0; X(""); G(""); }

static int nfail;
static void res(const char *group, const char *what) {
    if (strcmp(ebuf, gbuf) == 0) printf("OK %s %s\t%s\n", group, what, gbuf);
    else { printf("FAIL %s %s\t%s\t%s\n", group, what, ebuf, gbuf); ++nfail; }
    reset();
}
static void check(const char *group, const char *what, int ok, const char *msg) {
    X(msg); G(ok ? msg : "not so"); res(group, what);
}

static int enc(metac_encoding_t e) {
    switch (e) {
    case METAC_ENC_boolean: return 2; case METAC_ENC_complex_float: return 3; case METAC_ENC_float: return 4;
    case METAC_ENC_signed: return 5; case METAC_ENC_signed_char: return 6; case METAC_ENC_unsigned: return 7; case METAC_ENC_unsigned_char: return 8;
    }
    return -(int)e;
}
static const char *nn(const char *s) { return s ? s : ""; }

static metac_quals_t inh;   /* qualifiers of an array are those of its elements */
static void desc(metac_entry_t *p, int full) {
    metac_quals_t q = {.flags = 0}, up = inh;
    inh.flags = 0;
    metac_entry_t *f = p ? metac_entry_final_entry(p, &q) : NULL;
    if (f == NULL) { G("v"); return; }
    q.flags |= up.flags;
    if (metac_entry_has_elements(f)) {
        GF("a[%d](", (int)metac_entry_element_count(f));
        metac_size_t sz = 0, es = 0;
        if (metac_entry_element_count(f) > 0 && (metac_entry_byte_size(f, &sz) != 0 || metac_entry_byte_size(metac_entry_element_entry(f), &es) != 0 || sz != es * metac_entry_element_count(f))) G("!size");
        inh = q; desc(metac_entry_element_entry(f), full); G(")");
        return;
    }
    if (q.flags) GF("%s%s%s%s ", q.flag_const ? "c" : "", q.flag_volatile ? "v" : "", q.flag_restrict ? "r" : "", (q.flag_mutable || q.flag_shared || q.flag_packed) ? "?" : "");
    if (metac_entry_is_base_type(f)) {
        metac_encoding_t e = 0; metac_size_t sz = 0, sz2 = 0;
        metac_entry_base_type_encoding(f, &e); metac_entry_base_type_byte_size(f, &sz);
        if (metac_entry_byte_size(f, &sz2) != 0 || sz != sz2) G("!size");
        GF("b:%s:%d:%d", nn(metac_entry_base_type_name(f)), enc(e), (int)sz);
    } else if (metac_entry_is_enumeration(f)) {
        metac_size_t sz = 0; metac_entry_byte_size(f, &sz);
        GF("e:%s:%d{", nn(metac_entry_name(f)), (int)sz);
        metac_num_t n = metac_entry_enumeration_info_size(f);
        for (metac_num_t i = 0; i < n; i++) {
            struct metac_type_enumerator_info const *x = metac_entry_enumeration_info(f, i);
            GF("%s=%lld,", x ? nn(x->name) : "?", x ? (long long)x->const_value : 0);
            /* name of a value: the first enumerator having it */
            metac_name_t nm = x ? metac_entry_enumeration_to_name(f, x->const_value) : NULL;
            metac_num_t j = 0;
            for (; j < i; j++) if (metac_entry_enumeration_info(f, j)->const_value == x->const_value) break;
            int okn = 0;
            for (j = 0; j < n && nm; j++) { struct metac_type_enumerator_info const *y = metac_entry_enumeration_info(f, j); if (y->const_value == x->const_value && !strcmp(y->name, nm)) okn = 1; }
            if (!okn) GF("!to_name");
        }
        if (metac_entry_enumeration_info(f, n) != NULL || metac_entry_enumeration_info(f, -1) != NULL) G("!range");
        G("}");
    } else if (metac_entry_is_pointer(f)) {
        metac_size_t sz = 0;
        if (metac_entry_byte_size(f, &sz) != 0 || sz != sizeof(void *)) G("!size");
        metac_entry_t *t = metac_entry_pointer_entry(f), *tf = t ? metac_entry_final_entry(t, NULL) : NULL;
        if (t == NULL && !metac_entry_is_void_pointer(f)) G("!voidptr");
        if (tf != NULL && metac_entry_is_void_pointer(f)) G("!notvoidptr");
        metac_size_t tz = 0;
        int opaque = tf != NULL && metac_entry_has_members(tf) && metac_entry_member_count(tf) == 0 && (metac_entry_byte_size(tf, &tz) != 0 || tz == 0);
        if ((metac_entry_is_declaration_pointer(f) != 0) != opaque) G("!declarationptr");
        G("p("); desc(t, full); G(")");
    } else if (metac_entry_has_parameters(f)) {
        G("f(");
        metac_entry_t *r = metac_entry_has_result(f) ? metac_entry_result_type(f) : NULL;
        desc(r, full - 1);
        metac_num_t n = metac_entry_parameters_count(f);
        for (metac_num_t i = 0; i < n; i++) {
            metac_entry_t *a = metac_entry_by_paremeter_id(f, i);
            G(";");
            if (a && (metac_entry_parent_count(a) != 1 || metac_entry_parent_entry(a, 0) != f)) G("!parent");
            if (!a || !metac_entry_is_parameter(a)) { G("!param"); continue; }
            if (metac_entry_is_unspecified_parameter(a)) G("..."); else desc(metac_entry_parameter_entry(a), full - 1);
        }
        if (metac_entry_by_paremeter_id(f, n) != NULL || metac_entry_by_paremeter_id(f, -1) != NULL) G("!range");
        G(")");
    } else if (metac_entry_has_members(f)) {
        metac_kind_t k = metac_entry_kind(f);
        const char *name = metac_entry_name(f);
        metac_num_t n = metac_entry_member_count(f);
        metac_size_t sz = 0; int zr = metac_entry_byte_size(f, &sz);
        GF("%s:%s", k == METAC_KND_struct_type ? "s" : k == METAC_KND_union_type ? "u" : "?", nn(name));
        if (n == 0 && (zr != 0 || sz == 0)) { G("!"); return; }
        if (name == NULL || full > 0) {
            GF(":%d{", (int)sz);
            for (metac_num_t i = 0; i < n; i++) {
                metac_entry_t *m = metac_entry_by_member_id(f, i);
                if (!m || !metac_entry_is_member(m)) { G("!member"); continue; }
                if (metac_entry_parent_count(m) != 1 || metac_entry_parent_entry(m, 0) != f) G("!parent");
                struct metac_member_raw_location_info ri;
                memset(&ri, 0, sizeof ri);
                metac_entry_member_raw_location_info(m, &ri);
                GF("%s@", nn(metac_entry_name(m)));
                if (ri.p_bit_size != NULL) {
                    metac_offset_t a = 0, b = 0, c = 0;
                    if (metac_entry_member_bitfield_offsets(m, &a, &b, &c) != 0) G("!bits");
                    GF("bit%lld+%d:", (long long)(a * 8 + b), (int)c);
                } else GF("%lld:", (long long)ri.byte_offset);
                desc(metac_entry_member_entry(m), full - 1); G(";");
                if (metac_entry_name(m)) {
                    if (metac_entry_member_name_to_id(f, metac_entry_name(m)) != i) G("!name_to_id");
                    metac_entry_id_t id[] = {{.n = metac_entry_name(m)}}, id2[] = {{.i = i}};
                    if (metac_entry_by_member_ids(f, 0, id, 1) != m || metac_entry_by_member_ids(f, 0, id2, 1) != m) G("!by_ids");
                    if (metac_entry_by_member_ids(f, 1, id, 1) != metac_entry_final_entry(m, NULL)) G("!by_ids_final");
                }
            }
            if (metac_entry_by_member_id(f, n) != NULL || metac_entry_by_member_id(f, -1) != NULL || metac_entry_member_name_to_id(f, "no such member") >= 0) G("!range");
            G("}");
        }
    } else GF("?kind%d", (int)metac_entry_kind(f));
}

/* the unit, as the chain of parents tells it */
static int is_unit(metac_entry_t *e, int cu) {
    char w[32];
    snprintf(w, sizeof w, "cu%d.c", cu);
    const char *n = e && metac_entry_kind(e) == METAC_KND_compile_unit ? nn(metac_entry_name(e)) : "";
    size_t l = strlen(n), k = strlen(w);
    return l >= k && !strcmp(n + l - k, w) && (l == k || n[l - k - 1] == '/') && metac_entry_parent_count(e) == 0;
}
static int in_unit(metac_entry_t *e, int cu) {
    int ok = 0;
    metac_num_t n = metac_entry_parent_count(e);
    for (metac_num_t i = 0; i < n; i++) ok |= is_unit(metac_entry_parent_entry(e, i), cu);
    return ok && metac_entry_parent_entry(e, n) == NULL && metac_entry_parent_entry(e, -1) == NULL;
}
static metac_entry_t *only_parent(metac_entry_t *e) { return metac_entry_parent_count(e) == 1 ? metac_entry_parent_entry(e, 0) : NULL; }
static int in_fn(metac_entry_t *e, const char *fn, int cu) {
    metac_entry_t *p = only_parent(e);
    for (int i = 0; fn && i < 8 && p && metac_entry_kind(p) == METAC_KND_lex_block; i++) p = only_parent(p);
    if (fn) { if (!p || metac_entry_kind(p) != METAC_KND_subprogram || strcmp(nn(metac_entry_name(p)), fn)) return 0; p = only_parent(p); }
    return is_unit(p, cu);
}

static void run_desc(void) {
    reset();
    for (int i = 0; i < vf_nvars; i++) {
        const struct vf_var *v = &vf_vars[i];
        metac_entry_t *e = v->entry();
        v->exp(); desc(e, 2); res("var", v->name);
        if (!e) continue;
        X(v->name); G(nn(metac_entry_name(e))); res("varname", v->name);
        check("varkind", v->name, metac_entry_kind(e) == METAC_KND_variable, "is a variable");
        metac_value_t *val = v->value();
        check("varaddr", v->name, val != NULL && metac_value_addr(val) == v->addr() && metac_value_entry(val) == e, "value has the variable's entry and address");
        if (v->entry2) check("link2", v->name, v->entry2() == e, "the link leads to the same entry from another unit");
        check("unit", v->name, only_parent(e) && in_unit(e, v->cu), "belongs to the unit which defines it");
        metac_entry_t *fin = metac_entry_final_entry(e, NULL);
        check("unit", v->name, fin && in_unit(fin, v->cu), "its type is met in that unit");
        metac_size_t sz = 0;
        int r = metac_entry_byte_size(e, &sz);
        if (v->size) { XN(v->size); GF("%lld%s", (long long)sz, r ? " error" : ""); res("varsize", v->name); }
        metac_value_delete(val);
    }
    for (int i = 0; i < vf_nfns; i++) {
        const struct vf_fn *v = &vf_fns[i];
        metac_entry_t *e = v->entry();
        v->exp(); desc(e, 2); res("fn", v->name);
        if (!e) continue;
        X(v->name); G(nn(metac_entry_name(e))); res("fnname", v->name);
        if (v->entry2) check("link2", v->name, v->entry2() == e, "the link leads to the same entry from another unit");
        check("unit", v->name, only_parent(e) && in_unit(e, v->cu), "belongs to the unit which defines it");
        for (int k = 0; k < v->np; k++) {
            metac_entry_t *a = metac_entry_by_paremeter_id(e, k);
            X(v->pnames[k]); G(a ? nn(metac_entry_name(a)) : "(null)"); res("fnparam", v->name);
            metac_entry_id_t id[] = {{.n = (char *)v->pnames[k]}};
            check("fnparam-by-name", v->name, metac_entry_paremeter_name_to_id(e, (char *)v->pnames[k]) == k && metac_entry_by_parameter_ids(e, 0, id) == a, "parameter is found by name");
        }
        check("fnparam-by-name", v->name, metac_entry_paremeter_name_to_id(e, "no such parameter") < 0, "unknown parameter is not found");
    }
    for (int i = 0; i < vf_nlocs; i++) {
        const struct vf_loc *v = &vf_locs[i];
        metac_entry_t *e = v->get(v->k);
        if (v->exp == NULL) { check("declloc-miss", v->name, e == NULL, "undeclared name gives no entry"); continue; }
        if (e == NULL) { X("found"); G("not found"); res("declloc", v->name); continue; }
        v->exp(); desc(e, 1); res("declloc", v->name);
        X(strrchr(v->name, ':') + 1); G(nn(metac_entry_name(e))); res("declloc-name", v->name);
        check("loc-unit", v->name, in_fn(e, v->fn, v->cu), "belongs to the function and unit which declare it");
    }
    struct metac_db *db = vf_db();
    check("db", "present", db != NULL, "database is there");
    if (db) {
        struct name_to_entries *c[] = {&db->db_v0.structs, &db->db_v0.unions, &db->db_v0.enums, &db->db_v0.typedefs, &db->db_v0.base_types, &db->db_v0.variables, &db->db_v0.subprograms};
        for (int i = 0; i < vf_nnamed; i++) {
            const struct vf_named *v = &vf_named[i];
            struct name_to_entries *t = c[v->cat];
            int found = 0;
            for (metac_num_t k = 0; k < t->items_count; k++) {
                if (strcmp(t->items[k].name, v->name)) continue;
                found++;
                check("db-count", v->name, t->items[k].entries_count == 1, "one definition");
                if (t->items[k].entries_count >= 1) { v->exp(); desc(t->items[k].entries[0], 2); res("db", v->name); }
            }
            check("db-found", v->name, found == 1, "found exactly once");
        }
        for (int i = 0; i < vf_nvars; i++) {
            int ok = 0;
            for (metac_num_t k = 0; k < c[5]->items_count; k++) if (!strcmp(c[5]->items[k].name, vf_vars[i].name))
                for (metac_num_t j = 0; j < c[5]->items[k].entries_count; j++) ok += c[5]->items[k].entries[j] == vf_vars[i].entry();
            check("db-var", vf_vars[i].name, ok == 1, "the variable's entry is in the database");
        }
        for (int i = 0; i < vf_nfns; i++) {
            int ok = 0;
            for (metac_num_t k = 0; k < c[6]->items_count; k++) if (!strcmp(c[6]->items[k].name, vf_fns[i].name))
                for (metac_num_t j = 0; j < c[6]->items[k].entries_count; j++) ok += c[6]->items[k].entries[j] == vf_fns[i].entry();
            check("db-fn", vf_fns[i].name, ok == 1, "the function's entry is in the database");
        }
        static const char *cn[] = {"structs", "unions", "enums", "typedefs", "base_types", "variables", "subprograms"};
        for (int x = 0; x < 7; x++) for (metac_num_t k = 0; k < c[x]->items_count; k++) {
            int dup = 0;
            for (metac_num_t k2 = 0; k2 < k; k2++) dup += strcmp(c[x]->items[k].name, c[x]->items[k2].name) == 0;
            check("db-unique", cn[x], dup == 0, "names are unique");
            for (metac_num_t j = 0; j < c[x]->items[k].entries_count; j++)
                check("db-entryname", cn[x], c[x]->items[k].entries[j] && !strcmp(nn(metac_entry_name(c[x]->items[k].entries[j])), c[x]->items[k].name), "entry carries the name it is filed under");
        }
    }
}

static void cd(const char *group, const char *what, metac_entry_t *e) {
    char *s = e ? metac_entry_cdecl(e) : NULL;
    printf("%s\t%s\t%s\n", group, what, s ? s : "(null)");
    free(s);
}
static void run_cdecl(void) {
    for (int i = 0; i < vf_nvars; i++) {
        const struct vf_var *v = &vf_vars[i];
        metac_entry_t *e = v->entry();
        char w[300];
        cd("var", v->name, e);
        if (e) { metac_entry_t *f = metac_entry_final_entry(e, NULL); 
            cd("final", v->name, f);
            if (f && metac_entry_has_members(f)) for (metac_num_t k = 0; k < metac_entry_member_count(f); k++) {
                metac_entry_t *m = metac_entry_by_member_id(f, k);
                snprintf(w, sizeof w, "%s %d", v->name, (int)k); cd("member", w, m);
                snprintf(w, sizeof w, "%s %d", v->name, (int)k); cd("membertype", w, metac_entry_member_entry(m));
            }
            if (f && metac_entry_has_elements(f)) cd("elem", v->name, metac_entry_element_entry(f));
            if (f && metac_entry_is_pointer(f) && metac_entry_pointer_entry(f)) cd("target", v->name, metac_entry_pointer_entry(f));
        }
    }
    for (int i = 0; i < vf_nfns; i++) {
        metac_entry_t *e = vf_fns[i].entry();
        char w[300];
        cd("fn", vf_fns[i].name, e);
        if (e) { if (metac_entry_has_result(e)) cd("result", vf_fns[i].name, metac_entry_result_type(e));
            for (int k = 0; k < vf_fns[i].np; k++) { snprintf(w, sizeof w, "%s %d", vf_fns[i].name, k); cd("param", w, metac_entry_by_paremeter_id(e, k));
                metac_entry_t *a = metac_entry_by_paremeter_id(e, k); if (a) cd("paramtype", w, metac_entry_parameter_entry(a)); } }
    }
}

int main(int c, char **v) {
    if (c > 1 && !strcmp(v[1], "cdecl")) run_cdecl(); else run_desc();
    fflush(stdout);
    return nfail ? 3 : 0;
}
