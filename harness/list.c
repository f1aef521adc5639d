// Replays walks of spec/ListSpec.tla on the real list container and records what happened.
// Script: "### id MODE", then lines "op list pos key mode"; output: one JSON line per walk.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "rmc_list.h"
#include "rmc_list_template.h"

typedef struct { int id; int key; } item_t;
RMC_LIST(xlist, xnode_t, item_t)
RMC_LIST_IMPL(xlist, xnode_t, item_t)

static xlist L[2];
static int UD[2];
static xnode_t* det;
static int allocs, nfreed, freed[4096], badud, tracked;

static int which(void* ud) { return ud == &UD[0] ? 0 : ud == &UD[1] ? 1 : -1; }
static int cur;         // list the operation is about
static xnode_t* al(void* ud) { allocs++; if (which(ud) != cur) badud = 1; return malloc(sizeof(xnode_t)); }
static void fr(xnode_t* n, void* ud) { if (which(ud) != cur) badud = 1; if (nfreed < 4096) freed[nfreed++] = n->data.id; n->data.id = -77; free(n); }

static int cmode, cbad, token;
static int cmp_find(item_t needle, item_t hay, void* ud)
{
    if (ud != &token) cbad = 1;
    if (cmode == 2) return needle.key == hay.key ? 0 : 3;
    if (needle.key == hay.key) return 1;
    return cmode == 1 && hay.key > needle.key ? -1 : 0;
}
static int cmp_sort(item_t n, item_t e, void* ud) { if (ud != &token) cbad = 1; return n.key == e.key ? 0 : n.key > e.key ? 1 : -1; }
static int vis[256], nvis, vlim;
static uint8_t visit(xnode_t* n, void* ud) { if (ud != &token) cbad = 1; if (nvis < 256) vis[nvis++] = n->data.id; return nvis < vlim; }

static xnode_t* at(xlist* l, int p) { xnode_t* n = xlist_head(l); while (--p > 0 && n) n = xlist_next(n); return n; }
static int own;
static void seq(const char* name, xlist* l, int rev)
{
    int c = 0;
    printf(",\"%s\":[", name);
    for (xnode_t* n = rev ? xlist_tail(l) : xlist_head(l); n && c < 64; n = rev ? xlist_prev(n) : xlist_next(n)) {
        printf("%s[%d,%d]", c++ ? "," : "", n->data.id, n->data.key);
        if (n->owner != l) own = 0;
    }
    printf("]");
}
static void ints(const char* name, int* a, int n) { printf(",\"%s\":[", name); for (int i = 0; i < n; i++) printf("%s%d", i ? "," : "", a[i]); printf("]"); }

int main(int argc, char** argv)
{
    char line[256], op[16], l[4], id[128];
    int p, k, m, nid = 1, open = 0, first = 1, mode;
    alarm(120);
    FILE* f = fopen(argv[1], "r");
    if (!f || !freopen(argv[2], "w", stdout)) return 98;
    while (fgets(line, sizeof line, f)) {
        if (line[0] == '#') {
            if (open) { printf("]}\n"); for (int i = 0; i < 2; i++) { cur = i; xlist_empty(&L[i]); } if (det) free(det); }
            sscanf(line, "### %127s %d", id, &mode);
            tracked = mode == 0;
            for (int i = 0; i < 2; i++) xlist_init(&L[i], &UD[i], tracked ? al : 0, tracked ? fr : 0);
            det = 0; nid = 1; open = 1; first = 1;
            printf("{\"id\":\"%s\",\"ops\":[", id);
            continue;
        }
        if (sscanf(line, "%15s %3s %d %d %d", op, l, &p, &k, &m) != 5) return 98;
        cur = l[0] == 'B';
        xlist* s = &L[cur];
        item_t it = { nid, k }, got = { 0, 0 }, dit = { -5, k };
        xnode_t* r = 0;
        int rv = -1, isnew = 0;
        allocs = nfreed = badud = cbad = nvis = 0; cmode = m; vlim = p;
#define IS(x) !strcmp(op, x)
        fflush(stdout);
        if (IS("ph")) { r = xlist_push_head(s, it); isnew = 1; }
        else if (IS("pt")) { r = xlist_push_tail(s, it); isnew = 1; }
        else if (IS("ib")) { r = xlist_insert_before(at(s, p), it); isnew = 1; }
        else if (IS("ia")) { r = xlist_insert_after(at(s, p), it); isnew = 1; }
        else if (IS("is")) { r = xlist_insert_sorted(s, it, cmp_sort, &token); isnew = 1; }
        else if (IS("isr")) { r = xlist_insert_sorted_rev(s, it, cmp_sort, &token); isnew = 1; }
        else if (IS("phn")) { r = xlist_push_head_node(s, det); det = 0; }
        else if (IS("ptn")) { r = xlist_push_tail_node(s, det); det = 0; }
        else if (IS("ibn")) { r = xlist_insert_before_node(at(s, p), det); det = 0; }
        else if (IS("ian")) { r = xlist_insert_after_node(at(s, p), det); det = 0; }
        else if (IS("isn")) { r = xlist_insert_sorted_node(s, det, cmp_sort, &token); det = 0; }
        else if (IS("isrn")) { r = xlist_insert_sorted_node_rev(s, det, cmp_sort, &token); det = 0; }
        else if (IS("un")) { r = xlist_unlink(at(s, p)); det = r; }
        else if (IS("ohn")) { r = xlist_pop_head_node(s); det = r; }
        else if (IS("otn")) { r = xlist_pop_tail_node(s); det = r; }
        else if (IS("oh")) { rv = xlist_pop_head(s, &got) ? got.id : 0; }
        else if (IS("ot")) { rv = xlist_pop_tail(s, &got) ? got.id : 0; }
        else if (IS("del")) { xlist_delete(at(s, p)); }
        else if (IS("emp")) { xlist_empty(s); }
        else if (IS("fn")) { r = xlist_find_node(s, dit, cmp_find, &token); }
        else if (IS("fnr")) { r = xlist_find_node_rev(s, dit, cmp_find, &token); }
        else if (IS("fe")) { xlist_for_each(s, visit, &token); }
        else if (IS("fer")) { xlist_for_each_rev(s, visit, &token); }
        else if (IS("fd")) { free(det); det = 0; }
        else return 98;
        if (isnew) nid++;
        if (!(IS("oh") || IS("ot") || IS("del") || IS("emp") || IS("fe") || IS("fer") || IS("fd"))) rv = r ? r->data.id : 0;
        printf("%s{\"o\":\"%s\",\"l\":\"%s\",\"p\":%d,\"k\":%d,\"m\":%d,\"r\":%d,\"al\":%d,\"ud\":%d", first ? "" : ",", op, l, p, k, m, rv, tracked ? allocs : -1, !(badud || cbad));
        first = 0;
        ints("fr", freed, nfreed); ints("v", vis, nvis);
        own = 1;
        seq("A", &L[0], 0); seq("B", &L[1], 0); seq("Ar", &L[0], 1); seq("Br", &L[1], 1);
        printf(",\"an\":%u,\"bn\":%u,\"own\":%d}", xlist_size(&L[0]), xlist_size(&L[1]), own);
    }
    if (open) { printf("]}\n"); for (int i = 0; i < 2; i++) { cur = i; xlist_empty(&L[i]); } if (det) free(det); }
    fclose(f);
    return 0;
}
