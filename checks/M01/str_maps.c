// Contracts of the hash map from strings to pointers (strmap.c), for every hash function
#include "strmap.c"
#include "vf.h"

#ifndef SZ
#define SZ 8
#endif

#ifdef VF_PLAIN
static int gh_n;
void *vfc_wcalloc(size_t n, size_t size) {     // contract of wcalloc: cleared memory, different from any other
    enum { MAX = 2 * (SZ < 16 ? 16 : SZ) };     // (one array each: CBMC loses writes through pointers into arrays of arrays)
    static char c0[MAX], c1[MAX]; static void *k0[MAX], *k1[MAX]; static void *v0[MAX], *v1[MAX]; static StrMap x0, x1;
    gh_n++;
    int odd = gh_n & 1, alt = gh_n >> 1 & 1;
    if (size == 1) return odd ? c0 : c1;
    if (size == sizeof(x0)) return odd ? &x0 : &x1;
    __CPROVER_assert(size == 8 && n <= MAX, "vf: an array of the map");
    return odd ? alt ? (void *) k0 : (void *) k1 : alt ? (void *) v0 : (void *) v1;
}
#endif

#define NK (SZ + 1)                                      // different keys; two copies of each
static char key0[NK * 8], key1[NK * 8];                 // (no arrays of arrays: CBMC loses accesses through pointers into them)
#define KEY(c, i) ((c ? key1 : key0) + 8 * (i))
static long in_h[32], in_slot[SZ], in_v[SZ];
static StrMap m;
static void *k_arr[SZ]; static void *v_arr[SZ];
static int id_of(char *s) { return s[0] - 'a'; }
#ifdef VF_PLAIN
unsigned int vfc_hash(char *s) { return in_h[id_of(s) & 31]; }
#endif
static int gh_pos(char *s, int size) { return in_h[id_of(s)] & (size - 1); }
static void keys(void) {
    for (int i = 0; i < NK; i++) for (int c = 0; c < 2; c++) {
        KEY(c, i)[0] = 'a' + i; KEY(c, i)[1] = 0;
#ifndef VF_CBMC                                   // a key with that hash
        for (int x = 0; x < 90 * 90; x++) { sprintf(KEY(c, i), "%c%c%c", 'a' + i, '!' + x % 90, '!' + x / 90); if ((hash(KEY(c, i)) & (4 * SZ - 1)) == (in_h[i] & (4 * SZ - 1))) break; }
#endif
    }
}
static int is_key(char *k) { return k && k != (char *) TOMBSTONE; }
static int chain(StrMap *x, int at) {
    int i = gh_pos(x->keys[at], x->size);
    for (int n = 0; n < 2 * SZ; n++) { if (i == at) return 1; if (!x->keys[i]) return 0; i = (i + 1) & (x->size - 1); }
    return 0;
}
static int wf(StrMap *x) {
    int used = 0, n = 0;
    if (x->size != SZ && x->size != 2 * SZ) return 0;
    for (int i = 0; i < 2 * SZ; i++) if (i < x->size) {
        if (x->keys[i]) used++;
        if (is_key(x->keys[i])) {
            n++;
            if (!chain(x, i)) return 0;
            for (int j = 0; j < i; j++) if (is_key(x->keys[j]) && id_of(x->keys[j]) == id_of(x->keys[i])) return 0;
        }
    }
    return used == x->used_count && n == x->element_count && used < x->size;
}
static void *find(StrMap *x, int id) { void *r = 0; for (int i = 0; i < 2 * SZ; i++) if (i < x->size && is_key(x->keys[i]) && id_of(x->keys[i]) == id) r = x->values[i]; return r; }
static void make(void) {
    for (int i = 0; i < NK; i++) in_h[i] = vf_range(0, 4 * SZ - 1);
    for (int i = 0; i < SZ; i++) { in_slot[i] = vf_range(-2, NK - 1); in_v[i] = vf_range(1, 100); }
    keys();
    m.keys = (char **) k_arr; m.values = v_arr; m.size = SZ; m.used_count = m.element_count = 0;
    for (int i = 0; i < SZ; i++) {
        k_arr[i] = in_slot[i] == -2 ? 0 : in_slot[i] == -1 ? (char *) TOMBSTONE : KEY(0, in_slot[i]); v_arr[i] = (void *) in_v[i];
        if (in_slot[i] > -2) m.used_count++;
        if (in_slot[i] > -1) m.element_count++;
    }
#ifndef VF_CBMC
    m.keys = malloc(sizeof k_arr); m.values = malloc(sizeof v_arr);
    memcpy(m.keys, k_arr, sizeof k_arr); memcpy(m.values, v_arr, sizeof v_arr);
#endif
}
#define PRE long q = vf_range(0, NK - 1), k = vf_range(0, NK - 1); make(); VF_ASSUME(wf(&m)); void *old = find(&m, q); VF_MUST_ACCEPT();

#ifdef VF_PLAIN
// Contract of maybe_rehash (task rehash): some well-formed map with the same bindings and room for another key. The map here is any of those.
void vfc_maybe_rehash(StrMap *x) { __CPROVER_assert(wf(x), "vf: the map is well-formed when it is rehashed"); __CPROVER_assume(x->used_count + 1 < x->size); }
#endif

void h_get(void) {
    VF_BEGIN(); PRE
    void *r = strmap_get(&m, KEY(1, q));
    VF_POST("get finds the value of the key, or nothing", r == old);
    VF_POST("get changes nothing", wf(&m));
    VF_REACH();
}
void h_put(void) {
    VF_BEGIN(); long v = vf_range(1, 200); PRE
    strmap_put(&m, KEY(1, k), (void *) v);
    VF_POST("the map stays well-formed", wf(&m));
    VF_POST("put binds the key and no other", find(&m, q) == (q == k ? (void *) v : old));
    VF_REACH();
}
void h_delete(void) {
    VF_BEGIN(); PRE
    strmap_delete(&m, KEY(1, k));
    VF_POST("the map stays well-formed", wf(&m));
    VF_POST("delete removes the key and no other", find(&m, q) == (q == k ? 0 : old));
    VF_REACH();
}
void h_rehash(void) {
    VF_BEGIN(); PRE
    maybe_rehash(&m);
    VF_POST("the map stays well-formed, with room for another key", wf(&m) && m.used_count + 1 < m.size);
    VF_POST("rehashing changes no binding", find(&m, q) == old);
    VF_REACH();
}
void h_iterate(void) {
    VF_BEGIN(); PRE
    int n = 0, seen = 0;
    StrMapIterator it = strmap_iterator(&m);
    for (int i = 0; i <= SZ; i++) if (!strmap_iterator_finished(&it)) {
        VF_POST("only keys of the map are iterated over", it.pos >= 0 && it.pos < SZ && is_key(m.keys[it.pos]));
        n++; seen += id_of(strmap_iterator_key(&it)) == q;
        strmap_iterator_next(&it);
    }
    VF_POST("the iteration ends", strmap_iterator_finished(&it));
    VF_POST("every key is iterated over, once", n == m.element_count && seen == (old != 0));
    VF_REACH();
}
void h_new(void) {
    VF_BEGIN();
    long q = vf_range(0, NK - 1);
    for (int i = 0; i < NK; i++) in_h[i] = vf_range(0, 4 * SZ - 1);
    keys();
    VF_MUST_ACCEPT();
    StrMap *x = new_strmap();
    VF_POST("a new map is empty", x->size > 0 && !(x->size & (x->size - 1)) && !x->used_count && !x->element_count && !strmap_get(x, KEY(1, q)));
    VF_REACH();
}
