/* P: recursive task iterator vs. a reference scheduler */
#include "pbt.h"
#include <errno.h>
#include <stddef.h>
#include "metac/backend/iterator.h"
const char *pbt_name = "iterator";
int pbt_check_leaks = 1;
#define MAXT 700
typedef struct T { struct T *parent; int id, state, end; /*0 run,1 done,2 failed*/ void *out, *ctx; struct T *dep[MAXT]; int nd; int level; } T;
static T pool[MAXT];
static T *tasks[MAXT]; static int nt;
static T *mk(T *p) { T *t = &pool[nt]; memset(t, 0, offsetof(T, dep)); t->nd = 0; t->parent = p; t->id = nt; t->level = p ? p->level + 1 : 0; tasks[nt++] = t; return t; }
static T *model_next(T *cur) {
    for (;;) {
        if (cur->end) { if (!cur->parent) return NULL; cur = cur->parent; continue; }
        int i; for (i = 0; i < cur->nd; i++) if (!cur->dep[i]->end) break;
        if (i == cur->nd) return cur;
        cur = cur->dep[i];
    }
}
void pbt_case(void) {
    nt = 0; T *root = mk(NULL);
    int maxlevel = 1 + (int)pbt_choose(7), fanout = 1 + (int)pbt_choose(6), budget = 10 + (int)pbt_choose(200);
    int stop = 3, most = 60;
    if (pbt_chance(1, 150)) { maxlevel = 40 + (int)pbt_choose(360); fanout = 1 + (int)pbt_choose(2); budget = 600; stop = 3000; pbt_label("deep tree"); }
    else if (pbt_chance(1, 150)) { maxlevel = 1 + (int)pbt_choose(3); fanout = 100 + (int)pbt_choose(400); budget = 600; most = 600; pbt_label("wide tree"); }
    metac_recursive_iterator_t *it = metac_new_recursive_iterator(root);
    PBT_ASSERT("create", it != NULL, "no iterator");
    PBT_ASSERT("null", metac_recursive_iterator_next(NULL) == NULL && metac_recursive_iterator_get_state(NULL) == METAC_R_ITER_error && metac_recursive_iterator_level(NULL) == -1, "NULL iterator not refused");
    T *cur = root; int reuse = 0, failedn = 0, deep = 0, second = 0;
    for (int step = 0; ; step++) {
        T *exp = model_next(cur); T *got = metac_recursive_iterator_next(it);
        PBT_ASSERT("schedule", got == exp, "step %d: got task %d expected %d", step, got ? got->id : -1, exp ? exp->id : -1);
        if (!exp) break;
        cur = exp; if (cur->level > deep) deep = cur->level;
        pbt_note(" visit(%d)", cur->id);
        PBT_ASSERT("level", metac_recursive_iterator_level(it) == cur->level, "level %d expected %d", metac_recursive_iterator_level(it), cur->level);
        PBT_ASSERT("state", metac_recursive_iterator_get_state(it) == cur->state, "task %d state %d expected %d", cur->id, metac_recursive_iterator_get_state(it), cur->state);
        PBT_ASSERT("context", metac_recursive_iterator_get_context(it) == cur->ctx, "task %d context lost", cur->id);
        T *a = cur; for (int l = 0; l <= cur->level + 1; l++) { void *in = metac_recursive_iterator_get_in(it, l); PBT_ASSERT("in", in == (void *)a, "ancestor %d of task %d wrong", l, cur->id); a = a ? a->parent : NULL; }
        PBT_ASSERT("queue", metac_recursive_iterator_dep_queue_size(it) == cur->nd && !metac_recursive_iterator_dep_queue_is_empty(it) == !!cur->nd, "task %d: queue size %d expected %d", cur->id, metac_recursive_iterator_dep_queue_size(it), cur->nd);
        for (int i = 0; i <= cur->nd; i++) {
            void *in = NULL; int f = -1; void *o = metac_recursive_iterator_get_dep_out(it, i, &in, &f);
            if (i < cur->nd) PBT_ASSERT("dep_out", o == cur->dep[i]->out && in == (void *)cur->dep[i] && f == (cur->dep[i]->end == 2), "task %d: dep %d out/in/fail wrong (fail=%d)", cur->id, i, f);
            else PBT_ASSERT("dep_out", o == NULL, "task %d: dep past the end gave %p", cur->id, o);
        }
        /* take some results */
        int ndq = cur->nd ? (pbt_choose(3) < 2 || step > 3000 ? cur->nd : (int)pbt_choose(cur->nd + 1)) : 0, drained = 0;
        for (int i = 0; i < ndq; i++) {
            T *d = cur->dep[0]; void *in = NULL; int f = -1; void *o = metac_recursive_iterator_dequeue_and_delete_dep(it, &in, &f);
            PBT_ASSERT("dequeue", o == d->out && in == (void *)d && f == (d->end == 2), "task %d: dequeued wrong result of %d", cur->id, d->id);
            memmove(cur->dep, cur->dep + 1, sizeof(cur->dep[0]) * (size_t)--cur->nd); drained++;
            pbt_note(" take(%d)", d->id);
        }
        if (!cur->nd) { void *in = NULL; int f; PBT_ASSERT("dequeue", metac_recursive_iterator_dequeue_and_delete_dep(it, &in, &f) == NULL, "dequeue from an empty queue"); }
        if (pbt_chance(1, 3)) { cur->ctx = (void *)(uintptr_t)(1 + pbt_choose(100)); PBT_ASSERT("context", metac_recursive_iterator_set_context(it, cur->ctx) == cur->ctx, "set_context"); }
        bool more = cur->level < maxlevel && budget > 0 && nt < MAXT - 20 && pbt_choose(stop) != 0;
        if (more) {
            int k = 1 + (int)pbt_choose(fanout);
            if (drained && cur->nd == 0) reuse = 1; if (drained) second = 1;
            for (int i = 0; i < k && cur->nd < most && nt < MAXT - 1; i++) {
                T *d = mk(cur); budget--; pbt_note(" add(%d->%d)", cur->id, d->id);
                if (pbt_chance(1, 16)) { pbt_fail_alloc_at(0); int r = metac_recursive_iterator_create_and_append_dep(it, d); pbt_fail_alloc_at(-1); PBT_ASSERT("append", r == -ENOMEM, "append under OOM returned %d", r); pbt_label("allocation failure"); }
                int r = metac_recursive_iterator_create_and_append_dep(it, d); PBT_ASSERT("append", r == 0, "append returned %d", r);
                cur->dep[cur->nd++] = d;
            }
            cur->state = 1 + (int)pbt_choose(5); PBT_ASSERT("state", metac_recursive_iterator_set_state(it, cur->state) == it, "set_state");
        } else if (cur->nd == 0) {
            if (pbt_choose(4) == 0) { PBT_ASSERT("fail", metac_recursive_iterator_fail(it) == it, "fail"); cur->end = 2; cur->out = NULL; cur->state = METAC_R_ITER_failed; failedn++; pbt_note(" fail(%d)", cur->id); }
            else { cur->out = pbt_choose(6) ? (void *)(uintptr_t)(1000 + cur->id) : NULL; PBT_ASSERT("done", metac_recursive_iterator_done(it, cur->out) == it, "done"); cur->end = 1; cur->state = METAC_R_ITER_done; pbt_note(" done(%d)", cur->id); }
        } else { cur->state++; metac_recursive_iterator_set_state(it, cur->state); }
    }
    void *in = NULL; int f = -1; void *o = metac_recursive_iterator_get_out(it, &in, &f);
    PBT_ASSERT("result", o == root->out && in == (void *)root && f == (root->end == 2), "final result wrong");
    PBT_ASSERT("schedule", metac_recursive_iterator_next(it) == NULL, "next after the end");
    metac_recursive_iterator_free(it);
    if (failedn) pbt_label("failed tasks"); if (reuse) pbt_label("queue refilled after drained"); if (second) pbt_label("second round of subtasks"); if (deep >= 4) pbt_label("depth>=4"); if (deep > 64) pbt_label("depth>64");
    if (nt >= 5 && deep >= 2) pbt_nontrivial();
}
