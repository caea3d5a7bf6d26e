// Contracts of the hash map from long to pointer (longmap.c): every operation takes every well-formed map to a well-formed map
// and has the effect of a finite function from keys to values; induction over histories follows.
#include "longmap.c"
#include "vf.h"

#ifndef SZ
#define SZ 8
#endif

#ifdef VF_PLAIN
static int gh_n;
void *vfc_wcalloc(size_t n, size_t size) {     // contract of wcalloc: cleared memory, different from any other
    enum { MAX = 2 * (SZ < 16 ? 16 : SZ) };     // (one array each: CBMC loses writes through pointers into arrays of arrays)
    static char c0[MAX], c1[MAX]; static long k0[MAX], k1[MAX]; static void *v0[MAX], *v1[MAX]; static LongMap x0, x1;
    gh_n++;
    int odd = gh_n & 1, alt = gh_n >> 1 & 1;
    if (size == 1) return odd ? c0 : c1;
    if (size == sizeof(x0)) return odd ? &x0 : &x1;
    __CPROVER_assert(size == 8 && n <= MAX, "vf: an array of the map");
    return odd ? alt ? (void *) k0 : (void *) k1 : alt ? (void *) v0 : (void *) v1;
}
#endif

static LongMap m;
static long k_arr[SZ]; static void *v_arr[SZ]; static char s_arr[SZ];
static long in_k[SZ], in_s[SZ], in_v[SZ];
static long gh_hash(long l) { return l; }           // the position of a key is arbitrary, since the key is

static void draw(void) { for (int i = 0; i < SZ; i++) { in_k[i] = vf_range(0, 1) ? vf_long() : vf_range(-2 * SZ, 2 * SZ); in_s[i] = vf_range(0, 2); in_v[i] = vf_range(1, 100); } }
static int chain(LongMap *x, int at) {     // no empty slot between the position of a key and where it is
    int i = gh_hash(x->keys[at]) & (x->size - 1);
    for (int n = 0; n < 2 * SZ; n++) { if (i == at) return 1; if (x->status[i] == STATUS_EMPTY) return 0; i = (i + 1) & (x->size - 1); }
    return 0;
}
static int wf(LongMap *x) {
    int used = 0, n = 0;
    if (x->size != SZ && x->size != 2 * SZ) return 0;
    for (int i = 0; i < 2 * SZ; i++) if (i < x->size) {
        if (x->status[i] != STATUS_EMPTY) used++;
        if (x->status[i] == STATUS_USED) n++;
        if (x->status[i] < 0 || x->status[i] > 2) return 0;
        if (x->status[i] == STATUS_USED) {
            if (!chain(x, i)) return 0;
            for (int j = 0; j < i; j++) if (x->status[j] == STATUS_USED && x->keys[j] == x->keys[i]) return 0;
        }
    }
    return used == x->used_count && n == x->element_count && used < x->size;
}
static void *find(LongMap *x, long k) { void *r = 0; for (int i = 0; i < 2 * SZ; i++) if (i < x->size && x->status[i] == STATUS_USED && x->keys[i] == k) r = x->values[i]; return r; }
// natively the maps are made from the drawn slots by putting each key at the first free place, so that well-formed maps are common
static void make(void) {
    m.keys = k_arr; m.values = v_arr; m.status = s_arr; m.size = SZ; m.hashfunc = gh_hash; m.used_count = m.element_count = 0;
    for (int i = 0; i < SZ; i++) {
        k_arr[i] = in_k[i]; v_arr[i] = (void *) in_v[i]; s_arr[i] = in_s[i];
        if (in_s[i] != STATUS_EMPTY) m.used_count++;
        if (in_s[i] == STATUS_USED) m.element_count++;
    }
#ifndef VF_CBMC
    // keep the used and deleted slots, but move the keys to where they are found
    for (int i = 0; i < SZ; i++) if (s_arr[i] == STATUS_USED && !chain(&m, i)) k_arr[i] = (k_arr[i] & ~(SZ - 1L)) | i;
    m.keys = malloc(sizeof k_arr); m.values = malloc(sizeof v_arr); m.status = malloc(sizeof s_arr);
    memcpy(m.keys, k_arr, sizeof k_arr); memcpy(m.values, v_arr, sizeof v_arr); memcpy(m.status, s_arr, sizeof s_arr);
#endif
}
#define PRE long q = vf_range(0, 1) ? vf_long() : vf_range(-2 * SZ, 2 * SZ), k = vf_range(0, 1) ? vf_long() : vf_range(-2 * SZ, 2 * SZ); draw(); make(); VF_ASSUME(wf(&m)); void *old = find(&m, q); VF_MUST_ACCEPT();

#ifdef VF_PLAIN
// Contract of maybe_rehash (task rehash): some well-formed map with the same bindings and room for another key. The map here is any of those.
void vfc_maybe_rehash(LongMap *x) { __CPROVER_assert(wf(x), "vf: the map is well-formed when it is rehashed"); __CPROVER_assume(x->used_count + 1 < x->size); }
#endif

void h_get(void) {
    VF_BEGIN(); PRE
    void *r = longmap_get(&m, q);
    VF_POST("get finds the value of the key, or nothing", r == old);
    VF_POST("get changes nothing", wf(&m));
    VF_REACH();
}
void h_put(void) {
    VF_BEGIN(); long v = vf_range(1, 200); PRE
    longmap_put(&m, k, (void *) v);
    VF_POST("the map stays well-formed", wf(&m));
    VF_POST("put binds the key and no other", find(&m, q) == (q == k ? (void *) v : old));
    VF_REACH();
}
void h_delete(void) {
    VF_BEGIN(); PRE
    longmap_delete(&m, k);
    VF_POST("the map stays well-formed", wf(&m));
    VF_POST("delete removes the key and no other", find(&m, q) == (q == k ? 0 : old));
    VF_REACH();
}
void h_rehash(void) {
    VF_BEGIN(); PRE
    maybe_rehash(&m);
    VF_POST("the map stays well-formed, with room for another key", wf(&m) && m.used_count + 1 < m.size);
    VF_POST("rehashing changes no binding", find(&m, q) == old);
    VF_REACH();
}
void h_copy(void) {
    VF_BEGIN(); PRE
    LongMap *c = longmap_copy(&m);
    VF_POST("the copy has the same bindings", wf(c) && find(c, q) == old && c->hashfunc == m.hashfunc);
    VF_POST("the copy is independent", c->keys != m.keys && c->values != m.values && c->status != m.status);
    VF_REACH();
}
void h_empty(void) {
    VF_BEGIN(); PRE
    longmap_empty(&m);
    VF_POST("no key is bound", wf(&m) && !find(&m, q));
    VF_REACH();
}
void h_iterate(void) {
    VF_BEGIN(); PRE
    int n = 0, seen = 0;
    LongMapIterator it = longmap_iterator(&m);
    for (int i = 0; i <= SZ; i++) if (!longmap_iterator_finished(&it)) {
        VF_POST("only keys of the map are iterated over", it.pos >= 0 && it.pos < SZ && m.status[it.pos] == STATUS_USED);
        n++; seen += longmap_iterator_key(&it) == q;
        longmap_iterator_next(&it);
    }
    VF_POST("the iteration ends", longmap_iterator_finished(&it));
    VF_POST("every key is iterated over, once", n == m.element_count && seen == (old != 0));
    VF_REACH();
}
void h_new(void) {
    VF_BEGIN();
    long q = vf_long();
    VF_MUST_ACCEPT();
    LongMap *x = new_longmap();
    VF_POST("a new map is empty", x->size > 0 && !(x->size & (x->size - 1)) && !x->used_count && !x->element_count && !longmap_get(x, q) && x->hashfunc);
    VF_REACH();
}
