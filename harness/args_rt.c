/* Capture of call parameters: the program (generated) makes the calls and compares what was captured. */
#include "args_rt.h"
#include <stdarg.h>
const char *pbt_name = "args";
int pbt_check_leaks = 1;
struct vf_mode vf;
static const struct vf_fn *fn;
static metac_entry_t *entry;
static metac_parameter_storage_t *stor;
static metac_value_t *val, *item, *copy;
static int64_t fault;

uint64_t vf_u64(void) { return pbt_u64(); }
double vf_dbl(void) {
    switch (pbt_choose(6)) {
        case 0: return 0;
        case 1: return (double)pbt_range(-100, 100);
        case 2: return (double)pbt_range(-100000, 100000) / 64;
        case 3: return -0.0;
        case 4: return (double)pbt_range(-1000000, 1000000);
        default: return 1.0 / (1u << pbt_choose(20));
    }
}
void *vf_ptr(void) { static char o[64]; switch (pbt_choose(4)) { case 0: return NULL; case 1: return o + pbt_choose(64); default: return (void *)(uintptr_t)pbt_raw64(); } }
void vf_obj(void *p, size_t n) { (void)p; (void)n; }

metac_value_t *vf_begin(metac_entry_t *e) {
    PBT_ASSERT("entry", e != NULL, "no entry for the function");
    entry = e;
    PBT_ASSERT("count", metac_entry_has_parameters(e) != 0 && metac_entry_parameters_count(e) == fn->nparams, "%s: entry with %d parameters, expected %d", fn->name, (int)metac_entry_parameters_count(e), fn->nparams);
    if (fault >= 0) pbt_fail_alloc_at(fault);
    metac_value_t *v = metac_new_value_with_call_params(e);
    if (v == NULL) {
        PBT_ASSERT("new", pbt_alloc_failed(), "metac_new_value_with_call_params gave NULL");
        pbt_fail_alloc_at(-1);
        pbt_label("no memory for the value");
        return NULL;
    }
    stor = metac_value_addr(v);
    return v;
}
metac_value_t *vf_vwrap(metac_value_t *v, ...) {
    va_list ap;
    va_start(ap, v);
    metac_value_t *r = metac_value_parameter_vwrap(v, NULL, ap);
    va_end(ap);
    return r;
}
int vf_wrapped(metac_value_t *v) {
    bool injected = pbt_alloc_failed();
    pbt_fail_alloc_at(-1);
    if (v == NULL) {
        PBT_ASSERT("wrap", injected, "%s: the arguments were not captured", fn->name);
        pbt_label("capture refused without memory");
        metac_parameter_storage_delete(stor);
        return 0;
    }
    PBT_ASSERT("wrap-val", metac_value_addr(v) == stor && metac_value_entry(v) == entry, "%s: the captured value is not the one given", fn->name);
    PBT_ASSERT("wrap-count", metac_value_has_parameter_load(v) != 0 && metac_value_parameter_count(v) == fn->nparams, "%s: %d parameters captured of %d%s", fn->name, (int)metac_value_parameter_count(v), fn->nparams, injected ? " (an allocation failed)" : "");
    val = v;
    PBT_ASSERT("beyond", metac_value_parameter_new_item(v, fn->nparams) == NULL, "a parameter beyond the last");
    return 1;
}
void *vf_param(int k, const char *name, size_t size) {
    item = metac_value_parameter_new_item(val, k);
    PBT_ASSERT("item", item != NULL, "%s: parameter %d missing", fn->name, k);
    metac_entry_t *e = metac_value_entry(item);
    PBT_ASSERT("item-entry", e == metac_entry_by_paremeter_id(entry, k), "%s: parameter %d has the entry of another", fn->name, k);
    if (name) PBT_ASSERT("item-name", metac_entry_name(e) && strcmp(metac_entry_name(e), name) == 0, "%s: parameter %d is called %s, not %s", fn->name, k, metac_entry_name(e), name);
    if (size) {
        metac_size_t s = 0;
        PBT_ASSERT("item-size", metac_entry_byte_size(e, &s) == 0 && s == size, "%s: parameter %d has %d bytes, not %d", fn->name, k, (int)s, (int)size);
    }
    PBT_ASSERT("item-addr", metac_value_addr(item) != NULL, "%s: parameter %d has no memory", fn->name, k);
    return metac_value_addr(item);
}
void vf_param_done(void) { metac_value_delete(item); item = NULL; }
void vf_bad(int k, const char *decl, void *q, void *want) {
    metac_size_t s = 0;
    metac_entry_byte_size(metac_value_entry(item), &s);
    char a[160], b[160];
    int n = s > 40 ? 40 : (int)s;
    for (int i = 0; i < n; ++i) { sprintf(a + 3 * i, "%02x ", ((unsigned char *)q)[i]); sprintf(b + 3 * i, "%02x ", ((unsigned char *)want)[i]); }
    a[3 * n] = b[3 * n] = 0;
    pbt_fail("value", "%s: parameter %d (%s) captured as %s, passed as %s", fn->name, k, decl, a, b);
}
static char *deep_string(metac_value_t *v) { return metac_value_string_ex(v, vf.deep ? METAC_WMODE_deep : METAC_WMODE_shallow, NULL); }
void vf_text(const char *name) {
    if (!pbt_bool()) return;
    size_t cap = 1 << 16, n = 0;
    char *want = malloc(cap);
    n = snprintf(want, cap, vf.type ? "(%s)(" : "%s(", name);
    if (vf.type) n = snprintf(want, cap, "(ft%s)(", name + 2);
    int ok = 1;
    for (int i = 0; i < fn->nparams && ok; ++i) {
        metac_value_t *p = metac_value_parameter_new_item(val, i);
        char *s = deep_string(p);
        metac_value_delete(p);
        if (s == NULL) { ok = 0; break; }
        if (n + strlen(s) + 8 < cap) n += sprintf(want + n, "%s%s", i ? ", " : "", s); else ok = -1;
        free(s);
    }
    strcat(want, ")");
    char *got = deep_string(val);
    if (ok == 1) {
        PBT_ASSERT("text", got != NULL && strcmp(got, want) == 0, "%s: printed as %.600s, its parameters are %.600s", fn->name, got ? got : "nothing", want);
        pbt_label("text of the call");
    } else if (ok == 0) {
        PBT_ASSERT("text-null", got == NULL, "%s: printed although a parameter cannot be: %.600s", fn->name, got);
        pbt_label("call not printable");
    }
    free(want);
    free(got);
}
int vf_copy(void) {
    copy = metac_new_value_with_call_params(entry);
    PBT_ASSERT("copy-new", copy != NULL, "no value to copy into");
    metac_value_t *r = metac_value_copy_ex(val, copy, NULL, NULL, NULL, NULL);
    PBT_ASSERT("copy", r == copy, "%s: the captured call was not copied", fn->name);
    PBT_ASSERT("copy-count", metac_value_parameter_count(copy) == fn->nparams, "%s: %d parameters copied of %d", fn->name, (int)metac_value_parameter_count(copy), fn->nparams);
    int e = metac_value_equal_ex(val, copy, NULL, NULL);
    PBT_ASSERT("copy-equal", e == 1, "%s: the copy of the captured call compares %d", fn->name, e);
    for (int i = 0; i < fn->nparams; ++i) {
        metac_value_t *a = metac_value_parameter_new_item(val, i), *b = metac_value_parameter_new_item(copy, i);
        PBT_ASSERT("copy-own", a && b && metac_value_addr(a) != metac_value_addr(b) && metac_value_entry(a) == metac_value_entry(b), "%s: parameter %d of the copy shares memory", fn->name, i);
        int x = metac_value_equal_ex(a, b, NULL, NULL);
        PBT_ASSERT("copy-item", x == 1, "%s: parameter %d of the copy compares %d", fn->name, i, x);
        metac_value_delete(a);
        metac_value_delete(b);
    }
    pbt_label("call copied and compared");
    return 1;
}
void vf_differs(int k) {
    int e = metac_value_equal_ex(val, copy, NULL, NULL);
    PBT_ASSERT("differs", e == 0, "%s: compares %d after parameter %d was changed", fn->name, e, k);
    e = metac_value_equal_ex(copy, val, NULL, NULL);
    PBT_ASSERT("differs", e == 0, "%s: compares %d after parameter %d was changed (swapped)", fn->name, e, k);
    pbt_label("changed parameter noticed");
}
void vf_end(void) {
    if (copy) {
        PBT_ASSERT("free", metac_value_free_ex(copy, NULL, NULL, NULL) == 1, "%s: the copy was not freed", fn->name);
        metac_value_with_call_params_delete(copy);
        copy = NULL;
    }
    metac_value_with_call_params_delete(val);
    if (fn->nparams >= 3) pbt_nontrivial();
    pbt_label(vf.v ? "through va_list" : "through ...");
    if (vf.type) pbt_label("function type");
    if (fn->nparams > 6) pbt_label("more than 6 parameters");
}
void pbt_case(void) {
    fn = &vf_fns[pbt_choose(vf_nfns)];
    val = item = copy = NULL;
    fault = -1;
    vf.v = pbt_bool();
    vf.type = pbt_bool();
    vf.deep = pbt_bool();
    if (pbt_chance(1, 6)) fault = (int64_t)pbt_choose(12 + 6 * fn->nparams);
    pbt_note("%s (%d parameters) %s%s%s fault %d\n", fn->name, fn->nparams, vf.v ? "va_list " : "", vf.type ? "type " : "", vf.deep ? "deep" : "", (int)fault);
    fn->run();
    if (pbt_chance(1, 4) && entry) {
        metac_value_t *r = metac_new_value_with_call_result(entry);
        if (fn->ret == 0) {
            PBT_ASSERT("result-void", r == NULL && metac_entry_has_result(entry) == 0, "%s: a result of a function without one", fn->name);
        } else {
            metac_size_t s = 0;
            PBT_ASSERT("result", r != NULL && metac_entry_has_result(entry) != 0, "%s: no result value", fn->name);
            PBT_ASSERT("result-size", metac_entry_byte_size(metac_value_entry(r), &s) == 0 && s == fn->ret, "%s: result of %d bytes, not %d", fn->name, (int)s, (int)fn->ret);
            memset(metac_value_addr(r), 0x5a, s);
            pbt_label("result value");
        }
        metac_value_with_call_result_delete(r);
    }
    entry = NULL;
}
