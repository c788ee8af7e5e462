/* P02: lookup in a table of declaration locations, for every table */
#include "pbt.h"
#include "metac/backend/entry.h"
const char *pbt_name = "entrydb";
int pbt_check_leaks = 1;
#define NF 6
#define NL 6
#define NN 12
static char fs[NF][12], ls[NF][NL][12], ns[NF][NL][NN][12];
static int nf, nl[NF], nn[NF][NL];
static struct metac_entry ents[NF][NL][NN][2];
static metac_entry_t *pp[NF][NL][NN][2];
static struct metac_per_file_item F[NF]; static struct metac_per_loc_item L[NF][NL]; static struct metac_per_name_item N[NF][NL][NN];
static void name(char *s) { static const char a[] = "ab_/.Z0\xc3"; int n = 1 + (int)pbt_choose(5); for (int i = 0; i < n; i++) s[i] = a[pbt_choose(sizeof a - 1)]; s[n] = 0; }
static int scmp(const void *a, const void *b) { return strcmp(a, b); }
/* m sorted names, no two equal */
static int names(char (*t)[12], int want) {
    int m = 0;
    for (int i = 0; i < want; i++) { char s[12]; name(s); if (m && pbt_chance(1, 3)) { strcpy(s, t[pbt_choose(m)]); size_t l = strlen(s); if (l < 8 && pbt_bool()) { s[l] = "ab"[pbt_choose(2)]; s[l + 1] = 0; } else if (l > 1) s[l - 1] = 0; }
        int dup = 0; for (int k = 0; k < m; k++) dup |= !strcmp(t[k], s); if (!dup) strcpy(t[m++], s); }
    qsort(t, m, 12, scmp);
    return m;
}
void pbt_case(void) {
    nf = names(fs, 1 + (int)pbt_choose(NF)); int total = 0, amb = 0;
    for (int f = 0; f < nf; f++) {
        nl[f] = names(ls[f], (int)pbt_choose(NL + 1));
        for (int l = 0; l < nl[f]; l++) {
            nn[f][l] = names(ns[f][l], (int)pbt_choose(NN + 1));
            for (int n = 0; n < nn[f][l]; n++) {
                int two = pbt_chance(1, 10); total++; amb += two;
                for (int k = 0; k < 2; k++) { ents[f][l][n][k] = (struct metac_entry){.kind = METAC_KND_variable, .name = ns[f][l][n]}; pp[f][l][n][k] = &ents[f][l][n][k]; }
                memcpy((void *)&N[f][l][n], &(struct metac_per_name_item){.name = ns[f][l][n], .entry_count = 1 + two, .pp_entries = pp[f][l][n]}, sizeof N[f][l][n]);
            }
            memcpy((void *)&L[f][l], &(struct metac_per_loc_item){.loc_name = ls[f][l], .per_name_item_count = nn[f][l], .per_name_items = N[f][l]}, sizeof L[f][l]);
        }
        memcpy((void *)&F[f], &(struct metac_per_file_item){.file = fs[f], .per_loc_item_count = nl[f], .per_loc_items = L[f]}, sizeof F[f]);
    }
    struct metac_entry_db db = {.per_file_item_count = nf, .per_file_items = F};
    /* every declaration is found, and only under its own file, location and name */
    for (int f = 0; f < nf; f++) for (int l = 0; l < nl[f]; l++) for (int n = 0; n < nn[f][l]; n++) {
        struct metac_decl_loc d = {.file = fs[f], .name = ls[f][l]};
        metac_entry_t *e = metac_entry_from_entry_db(&db, &d, ns[f][l][n]), *x = N[f][l][n].entry_count == 1 ? &ents[f][l][n][0] : NULL;
        PBT_ASSERT("lookup", e == x, "file '%s' location '%s' name '%s': found '%s'%s", fs[f], ls[f][l], ns[f][l][n], e ? metac_entry_name(e) : "(null)", x ? "" : " (ambiguous)");
    }
    for (int i = 0; i < 12; i++) {
        char a[12], b[12], c[12]; int f, l, n;
        if (nf && pbt_bool()) strcpy(a, fs[pbt_choose(nf)]); else name(a);
        for (f = 0; f < nf && strcmp(a, fs[f]); f++);
        if (f < nf && nl[f] && pbt_choose(4)) strcpy(b, ls[f][pbt_choose(nl[f])]); else name(b);
        for (l = 0; f < nf && l < nl[f] && strcmp(b, ls[f][l]); l++);
        if (f < nf && l < nl[f] && nn[f][l] && pbt_bool()) { strcpy(c, ns[f][l][pbt_choose(nn[f][l])]); size_t k = strlen(c); if (k < 9 && pbt_bool()) strcpy(c + k, "a"); else if (k > 1) c[k - 1] = 0; } else name(c);
        metac_entry_t *x = NULL;
        if (f < nf && l < nl[f]) { for (n = 0; n < nn[f][l] && strcmp(c, ns[f][l][n]); n++); if (n < nn[f][l] && N[f][l][n].entry_count == 1) x = &ents[f][l][n][0]; }
        struct metac_decl_loc d = {.file = a, .name = b};
        metac_entry_t *e = metac_entry_from_entry_db(&db, &d, c);
        PBT_ASSERT("miss", e == x, "file '%s' location '%s' name '%s': found '%s' instead of '%s'", a, b, c, e ? metac_entry_name(e) : "(null)", x ? metac_entry_name(x) : "(null)");
    }
    pbt_note("%d files, %d declarations, %d ambiguous; first file %s", nf, total, amb, fs[0]);
    if (amb) pbt_label("ambiguous name"); if (total >= 4) pbt_nontrivial();
}
