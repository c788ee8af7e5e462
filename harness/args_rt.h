#ifndef ARGS_RT_H_
#define ARGS_RT_H_
#include "metac/reflect.h"
#include "pbt.h"
struct vf_fn { void (*run)(void); int nparams; const char *name; size_t ret; };
extern const struct vf_fn vf_fns[];
extern const int vf_nfns;
struct vf_mode { int v, type, deep; };
extern struct vf_mode vf;
uint64_t vf_u64(void);
double vf_dbl(void);
void *vf_ptr(void);
void vf_obj(void *p, size_t n);
metac_value_t *vf_begin(metac_entry_t *e);
metac_value_t *vf_vwrap(metac_value_t *v, ...);
int vf_wrapped(metac_value_t *v);
void *vf_param(int k, const char *name, size_t size);
void vf_param_done(void);
void vf_bad(int k, const char *decl, void *q, void *want);
void vf_text(const char *name);
int vf_copy(void);
void vf_differs(int k);
void vf_end(void);
#endif
