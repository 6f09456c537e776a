/* C20: a C (and C++) program that knows the library only through its
 * generated header and static library. Speaks check.py's worker protocol. */
#ifdef __cplusplus
#include "rtbvh.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <unistd.h>
using namespace rtbvh;
#define RC(x) ResultCode::x
#define BT(x) BvhType::x
#else
#include "rtbvh.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#define RC(x) x
#define BT(x) x
#endif

typedef unsigned long long u64;
static u64 st;
static u64 mix(u64 z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static u64 rnd(void) { st += 0x9E3779B97F4A7C15ull; return mix(st); }
static int below(int n) { return (int)(rnd() % (u64)n); }
static double uni(double a, double b) { return a + (b - a) * (double)(rnd() >> 11) / 9007199254740992.0; }

/* results */
static char sig[64], msg[2048];
static int failed;
static u64 evals, n_trees, n_quads, n_rays, n_packets, n_hits, n_visits, n_codes, n_refits;
#define MAXH 100000
static u64 hashes[MAXH];
static int n_hashes;
#define FAIL(s, ...) do { if (!failed) { failed = 1; snprintf(sig, sizeof sig, "%s", s); snprintf(msg, sizeof msg, __VA_ARGS__); } } while (0)

typedef struct { float p[3]; float uv[2]; } Vertex;   /* 20-byte stride */
typedef struct { Vertex v[3]; int material; } Face;   /* 64-byte stride */

static int n;
static Face *faces;
static RTAabb *boxes;
static float *centers; /* stride 12 or 16 */
static int cstride;

static void tri_box(int i, float lo[3], float hi[3]) {
    for (int a = 0; a < 3; a++) {
        lo[a] = fminf(faces[i].v[0].p[a], fminf(faces[i].v[1].p[a], faces[i].v[2].p[a]));
        hi[a] = fmaxf(faces[i].v[0].p[a], fmaxf(faces[i].v[1].p[a], faces[i].v[2].p[a]));
    }
}

static void scene(void) {
    n = below(8) == 0 ? 1 + below(4) : (below(6) == 0 ? 1000 + below(1500) : 2 + below(400));
    int mode = below(4);
    cstride = below(2) ? 12 : 16;
    faces = (Face *)calloc((size_t)n, sizeof(Face));
    boxes = (RTAabb *)calloc((size_t)n, sizeof(RTAabb));
    centers = (float *)calloc((size_t)n, (size_t)cstride);
    for (int i = 0; i < n; i++) {
        double c[3], s = mode == 3 ? 2.0 : 0.4;
        for (int a = 0; a < 3; a++) c[a] = mode == 0 ? uni(-10, 10) : mode == 1 ? (a == 0 ? i * 0.7 : 0) : mode == 2 ? (a == 2 ? 0 : uni(-5, 5)) : floor(uni(-4, 4));
        for (int k = 0; k < 3; k++) {
            for (int a = 0; a < 3; a++) faces[i].v[k].p[a] = (float)(c[a] + uni(-s, s));
            faces[i].v[k].uv[0] = faces[i].v[k].uv[1] = NAN;
        }
        float lo[3], hi[3];
        tri_box(i, lo, hi);
        for (int a = 0; a < 3; a++) {
            boxes[i].min[a] = lo[a];
            boxes[i].max[a] = hi[a];
            centers[i * (cstride / 4) + a] = (lo[a] + hi[a]) * 0.5f;
        }
        boxes[i].count = below(2) ? 0 : 12345;
        boxes[i].left_first = boxes[i].count;
    }
}

static int inside(const float *lo, const float *hi, const float *blo, const float *bhi) {
    for (int a = 0; a < 3; a++)
        if (lo[a] < blo[a] || hi[a] > bhi[a]) return 0;
    return 1;
}

/* tree walk through the header's structures */
static int *leaf_first, *leaf_count, *leaf_node, n_leaves;
static float shift_[3];
static void check_tree(RTBvh h, int spatial) {
    if (!h.nodes || !h.indices || h.node_count == 0 || h.index_count < (unsigned)n) {
        FAIL("c-layout", "handle with %u nodes and %u indices for %d primitives", h.node_count, h.index_count, n);
        return;
    }
    char *seen = (char *)calloc((size_t)n, 1), *vis = (char *)calloc(h.node_count, 1);
    unsigned *stack = (unsigned *)malloc(sizeof(unsigned) * (h.node_count + 2));
    int sp = 0;
    leaf_first = (int *)realloc(leaf_first, sizeof(int) * h.node_count);
    leaf_count = (int *)realloc(leaf_count, sizeof(int) * h.node_count);
    leaf_node = (int *)realloc(leaf_node, sizeof(int) * h.node_count);
    n_leaves = 0;
    stack[sp++] = 0;
    vis[0] = 1;
    while (sp && !failed) {
        unsigned i = stack[--sp];
        const RTBvhNode *nd = &h.nodes[i];
        int c = nd->aabb.count, l = nd->aabb.left_first;
        if (c >= 0) {
            if (l < 0 || (unsigned)(l + c) > h.index_count) { FAIL("c-layout", "leaf %u refers to %d+%d of %u indices", i, l, c, h.index_count); break; }
            leaf_first[n_leaves] = l; leaf_count[n_leaves] = c; leaf_node[n_leaves++] = (int)i;
            for (int k = l; k < l + c; k++) {
                unsigned p = h.indices[k];
                if (p >= (unsigned)n) { FAIL("c-layout", "index %d is %u of %d primitives", k, p, n); break; }
                seen[p] = 1;
                float lo[3], hi[3];
                tri_box((int)p, lo, hi);
                for (int a = 0; a < 3; a++) { lo[a] += shift_[a]; hi[a] += shift_[a]; }
                if (!spatial && !inside(lo, hi, nd->aabb.min, nd->aabb.max)) { FAIL("c-layout", "leaf %u does not contain triangle %u", i, p); break; }
            }
        } else {
            if (l < 0 || (unsigned)(l + 1) >= h.node_count || vis[l] || vis[l + 1]) { FAIL("c-layout", "node %u has children at %d of %u", i, l, h.node_count); break; }
            vis[l] = vis[l + 1] = 1;
            stack[sp++] = (unsigned)l;
            stack[sp++] = (unsigned)l + 1;
        }
    }
    for (int i = 0; i < n && !failed; i++)
        if (!seen[i]) FAIL("c-layout", "triangle %d is not referenced", i);
    free(seen); free(vis); free(stack);
    n_trees++;
}

static void check_quad(RTBvh h, RTMbvh q) {
    if (!q.nodes || !q.indices || q.node_count == 0 || q.index_count != h.index_count || memcmp(q.indices, h.indices, h.index_count * 4)) {
        FAIL("c-quad-layout", "quad handle with %u nodes, %u indices", q.node_count, q.index_count);
        return;
    }
    char *vis = (char *)calloc(q.node_count, 1);
    unsigned *stack = (unsigned *)malloc(sizeof(unsigned) * (q.node_count + 4));
    int sp = 0, leaves = 0, want = 0;
    int *at = (int *)malloc(sizeof(int) * (h.index_count + 1));
    for (unsigned k = 0; k <= h.index_count; k++) at[k] = -1;
    for (int k = 0; k < n_leaves; k++)
        if (leaf_count[k] > 0) { at[leaf_first[k]] = k; want++; }
    stack[sp++] = 0;
    vis[0] = 1;
    while (sp && !failed) {
        const RTMbvhNode *nd = &q.nodes[stack[--sp]];
        for (int k = 0; k < 4 && !failed; k++) {
            int c = nd->counts[k], l = nd->children[k];
            if (c > 0) {
                int x = l >= 0 && (unsigned)l < h.index_count ? at[l] : -1;
                if (x < 0 || leaf_count[x] != c) { FAIL("c-quad-layout", "quad lane with indices %d+%d is no leaf of the BVH", l, c); break; }
                at[l] = -1;
                leaves++;
                const RTAabb *b = &h.nodes[leaf_node[x]].aabb;
                if (nd->min_x[k] != b->min[0] || nd->min_y[k] != b->min[1] || nd->min_z[k] != b->min[2] || nd->max_x[k] != b->max[0] || nd->max_y[k] != b->max[1] || nd->max_z[k] != b->max[2])
                    FAIL("c-quad-layout", "quad lane of indices %d+%d has other bounds than the leaf", l, c);
            } else if (c < 0 && l >= 0) {
                if ((unsigned)l >= q.node_count || vis[l]) { FAIL("c-quad-layout", "quad child %d of %u", l, q.node_count); break; }
                vis[l] = 1;
                stack[sp++] = (unsigned)l;
            }
        }
    }
    if (!failed && leaves != want) FAIL("c-quad-layout", "%d of %d leaves are in the quad tree", leaves, want);
    free(vis); free(stack); free(at);
    n_quads++;
}

/* callbacks */
typedef struct { u64 magic; int lanes; float o[4][3], d[4][3]; int visits, stop_at; int bad; } User;
static bool tri_hit(int i, const float *o, const float *d, float lim, float *out) {
    double e1[3], e2[3], h[3], s[3], q[3];
    const Face *f = &faces[i];
    for (int a = 0; a < 3; a++) { e1[a] = (double)f->v[1].p[a] - f->v[0].p[a]; e2[a] = (double)f->v[2].p[a] - f->v[0].p[a]; s[a] = (double)o[a] - f->v[0].p[a]; }
    h[0] = d[1] * e2[2] - d[2] * e2[1]; h[1] = d[2] * e2[0] - d[0] * e2[2]; h[2] = d[0] * e2[1] - d[1] * e2[0];
    double a = e1[0] * h[0] + e1[1] * h[1] + e1[2] * h[2];
    if (fabs(a) < 1e-5) return false;
    double u = (s[0] * h[0] + s[1] * h[1] + s[2] * h[2]) / a;
    if (u < 0 || u > 1) return false;
    q[0] = s[1] * e1[2] - s[2] * e1[1]; q[1] = s[2] * e1[0] - s[0] * e1[2]; q[2] = s[0] * e1[1] - s[1] * e1[0];
    double v = (d[0] * q[0] + d[1] * q[1] + d[2] * q[2]) / a;
    if (v < 0 || u + v > 1) return false;
    double t = (e2[0] * q[0] + e2[1] * q[1] + e2[2] * q[2]) / a;
    if (t <= 1e-3 || (float)t >= lim) return false;
    *out = (float)t;
    return true;
}
static bool on_hit(uint32_t id, float *t, void *user) {
    User *u = (User *)user;
    if (u->magic != 0xfeedfacecafebeefull) { u->bad = 1; return true; }
    u->visits++;
    if (id >= (uint32_t)n) { u->bad = 2; return true; }
    for (int k = 0; k < u->lanes; k++) tri_hit((int)id, u->o[k], u->d[k], t[k], &t[k]);
    return u->visits >= u->stop_at;
}

static ResultCode shoot(int way, RTBvh h, RTMbvh q, User *u, float *t) {
    u->visits = 0;
    if (way < 2)
        return way == 0 ? intersect(h, u->o[0], u->d[0], t, u, on_hit) : intersect_mbvh(q, u->o[0], u->d[0], t, u, on_hit);
    float p[6][4];
    for (int a = 0; a < 3; a++)
        for (int k = 0; k < 4; k++) { p[a][k] = u->o[k][a]; p[a + 3][k] = u->d[k][a]; }
    return way == 2 ? intersect_packet(h, p[0], p[1], p[2], p[3], p[4], p[5], t, u, on_hit) : intersect_mbvh_packet(q, p[0], p[1], p[2], p[3], p[4], p[5], t, u, on_hit);
}

static void aim(User *u, int k) {
    int i = below(n);
    double a = uni(0.1, 0.8), b = uni(0.1, 0.9 - a);
    for (int x = 0; x < 3; x++) {
        double p = faces[i].v[0].p[x] + a * (faces[i].v[1].p[x] - faces[i].v[0].p[x]) + b * (faces[i].v[2].p[x] - faces[i].v[0].p[x]);
        u->o[k][x] = (float)(p + uni(-15, 15));
        u->d[k][x] = (float)(p - u->o[k][x]);
    }
}

static int one(int way, RTBvh h, RTMbvh q, User *u, const float *lim, float *got, float *want, ResultCode *rc) {
    int lanes = way < 2 ? 1 : 4, diff = 0;
    u->lanes = lanes;
    for (int k = 0; k < lanes; k++) {
        got[k] = want[k] = lim[k];
        for (int i = 0; i < n; i++) tri_hit(i, u->o[k], u->d[k], want[k], &want[k]);
    }
    *rc = shoot(way, h, q, u, got);
    for (int k = 0; k < lanes; k++)
        if (fabsf(got[k] - want[k]) > 1e-4f * (fabsf(want[k]) + 1e-3f)) diff = 1;
    return diff;
}

static void rays(RTBvh h, RTMbvh q) {
    static const char *names[4] = {"intersect", "intersect_mbvh", "intersect_packet", "intersect_mbvh_packet"};
    for (int round = 0; round < 24 && !failed; round++) {
        int way = round % 4;
        User u;
        memset(&u, 0, sizeof u);
        u.magic = 0xfeedfacecafebeefull;
        u.stop_at = 1 << 30;
        float lim[4], got[4], want[4];
        for (int k = 0; k < 4; k++) { aim(&u, k); lim[k] = below(4) == 0 ? (float)uni(0.2, 2.0) : 1e30f; }
        ResultCode rc;
        int diff = one(way, h, q, &u, lim, got, want, &rc);
        if (rc != RC(Ok) || u.bad) { FAIL("c-intersect", "%s returned %d, callback state %d", names[way], (int)rc, u.bad); return; }
        n_visits += (u64)u.visits;
        if (way < 2) n_rays++; else n_packets++;
        if (want[0] < lim[0]) n_hits++;
        evals++;
        if (n_hashes < MAXH) hashes[n_hashes++] = rnd();
        if (diff) {
            int bad = 0;
            for (int k = 0; k < 8; k++) {
                User w = u;
                for (int l = 0; l < 4; l++) for (int a = 0; a < 3; a++) w.o[l][a] += (float)uni(-1e-4, 1e-4);
                float g2[4], w2[4];
                bad += one(way, h, q, &w, lim, g2, w2, &rc);
            }
            if (bad >= 6) { FAIL("c-distance", "%s over %d triangles finds %g, testing all of them finds %g", names[way], n, got[0], want[0]); return; }
        }
        if (u.visits > 1) {
            int full = u.visits;
            User w = u;
            w.stop_at = 1 + below(full);
            float t[4] = {lim[0], lim[1], lim[2], lim[3]};
            rc = shoot(way, h, q, &w, t);
            if (rc != RC(Ok) || w.visits != w.stop_at) { FAIL("c-stop", "%s went on after the callback returned true: %d visits instead of %d", names[way], w.visits, w.stop_at); return; }
        }
        User w = u;
        if (below(2)) w.o[way < 2 ? 0 : below(4)][below(3)] = NAN; else w.d[way < 2 ? 0 : below(4)][below(3)] = NAN;
        float t[4] = {lim[0], lim[1], lim[2], lim[3]};
        rc = shoot(way, h, q, &w, t);
        if (rc != RC(Nan) || w.visits || memcmp(t, lim, sizeof t)) { FAIL("c-nan", "%s with a NaN returned %d after %d visits", names[way], (int)rc, w.visits); return; }
        n_codes++;
    }
}

static void expect(ResultCode got, ResultCode want, const char *what) {
    n_codes++;
    if (got != want) FAIL("c-code", "%s returned %d instead of %d", what, (int)got, (int)want);
}

static void one_case(u64 idx) {
    scene();
    int kind = (int)(idx % 3), given = below(2), leaf = below(3) ? 1 + below(6) : 0;
    shift_[0] = shift_[1] = shift_[2] = 0;
    RTBvh h;
    RTMbvh q;
    memset(&h, 0, sizeof h);
    memset(&q, 0, sizeof q);
    if (kind != 0) given = 1; /* the centres alone do not say how large a triangle is */
    const RTAabb *bx = given ? boxes : NULL;
    if (kind == 0) {
        expect(create_spatial_Bvh(bx, 0, centers, (uintptr_t)cstride, &faces[0].v[0].p[0], sizeof(Vertex), sizeof(Face), (uint32_t)leaf, &h), RC(NoPrimitives), "create_spatial_Bvh without primitives");
        expect(create_spatial_Bvh(bx, (uintptr_t)n, NULL, (uintptr_t)cstride, &faces[0].v[0].p[0], sizeof(Vertex), sizeof(Face), (uint32_t)leaf, &h), RC(Error), "create_spatial_Bvh without centres");
        expect(create_spatial_Bvh(bx, (uintptr_t)n, centers, (uintptr_t)cstride, &faces[0].v[0].p[0], sizeof(Vertex), sizeof(Face), (uint32_t)leaf, &h), RC(Ok), "create_spatial_Bvh");
    } else {
        BvhType bt = kind == 1 ? BT(BinnedSAH) : BT(LocallyOrderedClustered);
        expect(create_bvh(bx, 0, centers, (uintptr_t)cstride, (uintptr_t)leaf, bt, &h), RC(NoPrimitives), "create_bvh without primitives");
        expect(create_bvh(bx, (uintptr_t)n, NULL, (uintptr_t)cstride, (uintptr_t)leaf, bt, &h), RC(Error), "create_bvh without centres");
        expect(create_bvh(bx, (uintptr_t)n, centers, (uintptr_t)cstride, (uintptr_t)leaf, bt, &h), RC(Ok), "create_bvh");
    }
    if (!failed) check_tree(h, kind == 0);
    if (!failed) {
        RTBvh none;
        memset(&none, 0, sizeof none);
        none.id = 0xffffffffu;
        expect(create_mbvh(none, &q), RC(Error), "create_mbvh of a null handle");
        expect(refit(boxes, none), RC(Error), "refit of a null handle");
        expect(create_mbvh(h, &q), RC(Ok), "create_mbvh");
    }
    if (!failed) check_quad(h, q);
    if (!failed) rays(h, q);
    if (!failed && kind != 0) {
        for (int a = 0; a < 3; a++) shift_[a] = (float)floor(uni(-8, 8));
        for (int i = 0; i < n; i++)
            for (int a = 0; a < 3; a++) { boxes[i].min[a] += shift_[a]; boxes[i].max[a] += shift_[a]; }
        expect(refit(boxes, h), RC(Ok), "refit");
        /* the shifted triangles' boxes, computed the same way */
        if (!failed) check_tree(h, 0);
        n_refits++;
    }
    if (!failed) { free_mbvh(q); free_bvh(h); }
    free(faces); free(boxes); free(centers);
}

static const char *arg(int c, char **v, const char *name) {
    for (int i = 1; i + 1 < c; i++) if (!strcmp(v[i], name)) return v[i + 1];
    return NULL;
}

static void esc(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) {
        if (*s == '"' || *s == '\\') fputc('\\', f);
        fputc((unsigned char)*s < 32 ? ' ' : *s, f);
    }
    fputc('"', f);
}

int main(int c, char **v) {
    const char *s;
    u64 seed = (s = arg(c, v, "--seed")) ? strtoull(s, 0, 10) : 1, shard = (s = arg(c, v, "--shard")) ? strtoull(s, 0, 10) : 0;
    u64 nsh = (s = arg(c, v, "--nshards")) ? strtoull(s, 0, 10) : 1;
    double budget = (s = arg(c, v, "--budget")) ? atof(s) : 2;
    const char *only = arg(c, v, "--only"), *out = arg(c, v, "--out"), *jn = arg(c, v, "--journal");
    FILE *j = jn ? fopen(jn, "w") : NULL;
    u64 idx = only ? strtoull(only, 0, 10) : shard, cases = 0, must = 300;
    struct timespec a, b;
    clock_gettime(CLOCK_MONOTONIC, &a);
    for (;; idx += nsh) {
        clock_gettime(CLOCK_MONOTONIC, &b);
        if (!only && idx >= must && (double)(b.tv_sec - a.tv_sec) + (double)(b.tv_nsec - a.tv_nsec) * 1e-9 > budget) break;
        if (j) { rewind(j); fprintf(j, "%12llu\n", idx); fflush(j); }
        st = mix(seed) ^ mix(idx * 31 + 5);
        one_case(idx);
        cases++;
        if (failed || only) break;
    }
    FILE *f = out ? fopen(out, "w") : stdout;
    fprintf(f, "{\"cases\":%llu,\"evals\":%llu,\"nontrivial\":%d,\"nontrivial_hashes\":[", cases, evals, n_hashes);
    for (int i = 0; i < n_hashes; i++) fprintf(f, "%s%llu", i ? "," : "", hashes[i]);
#ifdef __cplusplus
#define L "cpp"
#else
#define L "c"
#endif
    fprintf(f, "],\"counters\":{\"" L "_trees_walked\":%llu,\"" L "_quad_trees_walked\":%llu,\"" L "_rays\":%llu,\"" L "_packets\":%llu,\"" L "_hits\":%llu,\"" L "_visits\":%llu,\"" L "_result_codes\":%llu,\"" L "_refits\":%llu},",
            n_trees, n_quads, n_rays, n_packets, n_hits, n_visits, n_codes, n_refits);
    fprintf(f, "\"sets\":{},\"samples\":[],\"inconclusive\":[],\"violations\":[");
    if (failed) {
        fprintf(f, "{\"sig\":");
        esc(f, sig);
        fprintf(f, ",\"msg\":");
        esc(f, msg);
        fprintf(f, ",\"idx\":%llu}", idx);
    }
    fprintf(f, "]}\n");
    if (out) fclose(f);
    return failed ? 1 : 0;
}
