/* As h_argfind, for inputs that fail with clang only. */
#include "metac/reflect.h"
#include "pbt.h"
const char *pbt_name = "argfind2";
struct fb { void *p; unsigned:3; };
int f_unnamed(struct fb p, long next) { return 0; }
METAC_GSYM_LINK(f_unnamed);
void pbt_case(void) {
    struct fb b = {&b};
    long next = 0x1234567;
    int ok = 0;
    metac_value_t *v = metac_value_parameter_wrap(metac_new_value_with_call_params(METAC_GSYM_LINK_ENTRY(f_unnamed)), NULL, b, next, 0x7777777l);
    if (v) {
        metac_value_t *p = metac_value_parameter_new_item(v, 1);
        ok = p && memcmp(metac_value_addr(p), &next, sizeof next) == 0;
        if (p) metac_value_delete(p);
        metac_value_with_call_params_delete(v);
    }
    if (!ok) pbt_label("bad:call-struct-unnamed");
}
