/* interface between a generated program's oracle and the generic run-time parts */
#ifndef VF_RT_H
#define VF_RT_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdbool.h>
typedef struct metac_entry metac_entry_t;
typedef struct metac_value metac_value_t;
enum { VF_BASE, VF_ENUM, VF_PTR, VF_AGG, VF_ARR };
#define VF_STEP_ELEM 1000000
struct vf_econst { const char *name; long long v; };
struct vf_leaf { const char *path; const int *steps; int nsteps; int kind; int api; int bits; int cst; int size; int esigned; long off;
    void (*get)(void *, void *); void (*set)(void *, void *); const struct vf_econst *ec; int nec; size_t tsize; };
struct vf_mem { const char *name; long off; };
struct vf_node { const char *path; const int *steps; int nsteps; int kind; int count; const struct vf_mem *mem; long off; size_t esize; int chars; };
struct vf_var { const char *name; metac_entry_t *(*entry)(void); void *(*addr)(void); metac_value_t *(*value)(void); size_t size; void (*exp)(void);
    const struct vf_leaf *leaves; int nleaves; const struct vf_node *nodes; int nnodes; int flex; metac_entry_t *(*entry2)(void); int cu; };
struct vf_fn { const char *name; metac_entry_t *(*entry)(void); void (*exp)(void); const char *const *pnames; int np; metac_entry_t *(*entry2)(void); int cu; };
struct vf_loc { const char *name; metac_entry_t *(*get)(int); int k; void (*exp)(void); int cu; const char *fn; };
struct vf_named { int cat; const char *name; void (*exp)(void); };
extern const struct vf_var vf_vars[]; extern const int vf_nvars;
extern const struct vf_fn vf_fns[]; extern const int vf_nfns;
extern const struct vf_loc vf_locs[]; extern const int vf_nlocs;
extern const struct vf_named vf_named[]; extern const int vf_nnamed;
void X(const char *s); void XN(long long v);
#define VF_BITPOS(T, m) ({ T x_; memset(&x_, 0, sizeof(x_)); x_.m = -1; int b_ = 0; unsigned char *q_ = (unsigned char *)&x_; while (b_ < (int)sizeof(x_) * 8 && !(q_[b_ / 8] & (1 << (b_ % 8)))) b_++; b_; })
#endif
