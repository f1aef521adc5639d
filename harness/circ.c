// Replays walks of spec/CircBuf.tla on the real byte queue and records what happened.
// Script: "### id SIZE", then lines "op n off m"; output: one JSON line per walk.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "circular_buffer.h"

#define HUGE_N 2147483647
static uint8_t* mem; static uint32_t size; static circ_buf_t cb;
static int off(uint8_t* p) { return p ? (p >= mem && p <= mem + size ? (int) (p - mem) : -2) : -1; }
static void bytes(const char* name, uint8_t* a, long n) { printf(",\"%s\":[", name); for (long i = 0; i < n; i++) printf("%s%d", i ? "," : "", a[i]); printf("]"); }
static int inside(int o, uint32_t l) { return !l || (o >= 0 && (uint32_t) o + l <= size && l <= size); }

int main(int argc, char** argv)
{
    char line[256], op[16], id[128];
    int nn, fo, m, sz, open = 0, first = 1, val = 1;
    alarm(120);
    FILE* f = fopen(argv[1], "r");
    if (!f || !freopen(argv[2], "w", stdout)) return 98;
    while (fgets(line, sizeof line, f)) {
        if (line[0] == '#') {
            if (open) printf("]}\n");
            free(mem);
            if (sscanf(line, "### %127s %d", id, &sz) != 2) return 98;
            size = sz; mem = malloc(size); memset(mem, 0xEE, size); val = 1;
            memset(&cb, 0x5A, sizeof cb);
            circ_buf_init(&cb, mem, size);
            open = first = 1;
            printf("{\"id\":\"%s\",\"size\":%d,\"ops\":[", id, sz);
            continue;
        }
        if (sscanf(line, "%15s %d %d %d", op, &nn, &fo, &m) != 4) return 98;
        uint32_t n = nn == HUGE_N ? UINT32_MAX : (uint32_t) nn;
        uint32_t fof = fo == HUGE_N ? UINT32_MAX : (uint32_t) fo;
        uint8_t *s1 = (uint8_t*) 1, *s2 = (uint8_t*) 1; uint32_t l1 = 0, l2 = 0, iu = 999999; int r = 0, v0 = 0; long dn = 0;
        uint32_t tn = n < size ? n : size;         // read targets are exactly as large as what may be returned
        uint8_t* t = malloc(tn ? tn : 1); memset(t, 0, tn ? tn : 1);
        int o1 = -1, o2 = -1;
        fflush(stdout);
#define IS(x) !strcmp(op, x)
        if (IS("al")) {
            r = circ_buf_alloc(&cb, n, &s1, &l1, &s2, &l2);
            if (r) { l1 = l2 = 0; }
            o1 = l1 ? off(s1) : -1; o2 = l2 ? off(s2) : -1;
            v0 = val;
            if (inside(o1, l1) && inside(o2, l2)) {
                for (uint32_t i = 0; i < l1; i++) { s1[i] = val; val = val % 250 + 1; }
                for (uint32_t i = 0; i < l2; i++) { s2[i] = val; val = val % 250 + 1; }
            }
        }
        else if (IS("tr")) circ_buf_trim(&cb, n);
        else if (IS("fr")) r = circ_buf_free(&cb, n, m ? 0 : &iu);
        else if (IS("rd")) { r = circ_buf_read(&cb, t, n, m ? 0 : &iu); if (!r && !m) dn = iu <= tn ? iu : 0; }
        else if (IS("ro")) { r = circ_buf_read_offset(&cb, fof, t, n, m ? 0 : &iu); if (!r && !m) dn = iu <= tn ? iu : 0; }
        else if (IS("rs")) {
            r = circ_buf_read_segment(&cb, n, &s1, &l1, &s2, &l2);
            o1 = l1 ? off(s1) : -1; o2 = l2 ? off(s2) : -1;
        }
        else return 98;
        if (r) iu = 999999;
        if ((IS("rd") || IS("ro")) && m && !r) {   // nobody reported how much was read: what must have been read
            uint32_t u = circ_buf_in_use(&cb), o = IS("ro") ? fof : 0;
            dn = u > o ? (u - o < tn ? u - o : tn) : 0;
        }
        printf("%s{\"o\":\"%s\",\"n\":%d,\"f\":%d,\"m\":%d,\"r\":%d,\"s1\":%d,\"l1\":%d,\"s2\":%d,\"l2\":%d,\"v0\":%d,\"iu\":%d", first ? "" : ",", op, nn, fo, m, r, o1,
               l1 > 1000000 ? 1000000 : (int) l1, o2, l2 > 1000000 ? 1000000 : (int) l2, v0, iu > 1000000 ? 1000000 : (int) iu);
        first = 0;
        bytes("d", t, dn);
        free(t);
        if (IS("rs") && inside(o1, l1) && inside(o2, l2)) {
            uint8_t* z = malloc((size_t) l1 + l2 + 1);
            if (l1) memcpy(z, s1, l1);
            if (l2) memcpy(z + l1, s2, l2);
            bytes("sd", z, (long) l1 + l2); free(z);
        } else bytes("sd", 0, 0);
        // what the queries say afterwards
        uint32_t use = circ_buf_in_use(&cb), av = circ_buf_available(&cb), got = 0;
        uint8_t* a = malloc(size + 1); memset(a, 0, size + 1);
        int rr = circ_buf_read(&cb, a, size, &got);
        printf(",\"use\":%d,\"av\":%d", use > 1000000 ? 1000000 : (int) use, av > 1000000 ? 1000000 : (int) av);
        bytes("all", a, rr ? 0 : got <= size ? got : 0);
        free(a);
        printf("}");
    }
    if (open) printf("]}\n");
    fclose(f);
    return 0;
}
