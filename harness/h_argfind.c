/* Listed findings of the capture of call parameters: fixed inputs, reported by label. */
#include "metac/reflect.h"
#include "pbt.h"
const char *pbt_name = "argfind";
struct fd { double d; };
struct fl { long double x; };
struct __attribute__((aligned(16))) fa { long a[4]; };
struct __attribute__((packed)) fp { char c; long l; };
int f_double(struct fd p) { return 0; }
int f_ldouble(struct fl p) { return 0; }
int f_packed(struct fp p) { return 0; }
int f_aligned(long a, long b, long c, long d, long e, struct fa p) { return 0; }
METAC_GSYM_LINK(f_double);
METAC_GSYM_LINK(f_ldouble);
METAC_GSYM_LINK(f_packed);
METAC_GSYM_LINK(f_aligned);
static void one(const char *id, metac_value_t *v, int k, const void *want, size_t n) {
    static char b[64];
    int ok = 0;
    if (v) {
        metac_value_t *p = metac_value_parameter_new_item(v, k);
        ok = p && memcmp(metac_value_addr(p), want, n) == 0;
        if (p) metac_value_delete(p);
        metac_value_with_call_params_delete(v);
    }
    if (!ok) { snprintf(b, sizeof b, "bad:%s", id); pbt_label(b); }
}
static void *junk(int n) { volatile char x[512]; for (int i = 0; i < 512; ++i) x[i] = n; return (void *)(uintptr_t)x[0]; }
void pbt_case(void) {
    struct fd d = {1.5};
    struct fl l = {2.5L};
    struct fp p = {'a', 0x1122334455667788};
    struct fa a = {{1, 2, 3, 4}};
#define NEW(f) metac_new_value_with_call_params(METAC_GSYM_LINK_ENTRY(f))
    junk(7); one("call-struct-double", metac_value_parameter_wrap(NEW(f_double), NULL, d), 0, &d, sizeof d);
    junk(7); one("call-struct-long-double", metac_value_parameter_wrap(NEW(f_ldouble), NULL, l), 0, &l, 10);
    junk(7); one("call-struct-packed", metac_value_parameter_wrap(NEW(f_packed), NULL, p), 0, &p, sizeof p);
    junk(7); one("call-struct-aligned", metac_value_parameter_wrap(NEW(f_aligned), NULL, 1l, 2l, 3l, 4l, 5l, a), 5, &a, sizeof a);
}
