// Contracts of bit sets (set.c), stacks (stack.c), lists (list.c) and graphs (graph.c)
#ifdef SETS
#include "set.c"
#endif
#ifdef STACKS
#include "stack.c"
#endif
#ifdef LISTS
#include "list.c"
#endif
#include "vf.h"

#ifndef NE
#define NE 5
#endif
#ifdef SETS
static long in_a[NE + 1], in_b[NE + 1];
static Set sa, sb, sd;
static char ea[NE + 1], eb[NE + 1], ed[NE + 1];
static void make(void) {
    for (int i = 0; i <= NE; i++) { in_a[i] = vf_range(0, 1); in_b[i] = vf_range(0, 1); }
    for (int i = 0; i <= NE; i++) { ea[i] = in_a[i]; eb[i] = in_b[i]; ed[i] = 0; }
    sa.max_value = sb.max_value = sd.max_value = NE; sa.elements = ea; sb.elements = eb; sd.elements = ed; sa.cached_elements = sb.cached_elements = sd.cached_elements = 0;
}
#define BINARY(name, f, expr) void name(void) { VF_BEGIN(); long dst = vf_range(0, 2), q = vf_range(0, NE); make(); Set *t = dst == 0 ? &sd : dst == 1 ? &sa : &sb; VF_MUST_ACCEPT(); \
    Set *r = f(&sa, &sb); \
    VF_POST("elements of the result", in_set(r, q) == !!(expr)); VF_POST("the operands are unchanged", ea[q] == in_a[q] && eb[q] == in_b[q]); VF_POST("size of the result", r->max_value == NE); \
    f##_to(t, &sa, &sb); \
    VF_POST("elements of the result in place", in_set(t, q) == !!(expr)); VF_POST("the other operand is unchanged", (t == &sa || ea[q] == in_a[q]) && (t == &sb || eb[q] == in_b[q])); VF_REACH(); }
BINARY(h_union, set_union, in_a[q] || in_b[q])
BINARY(h_intersection, set_intersection, in_a[q] && in_b[q])
BINARY(h_difference, set_difference, in_a[q] && !in_b[q])
void h_set(void) {
    VF_BEGIN();
    long q = vf_range(0, NE), v = vf_range(0, NE);
    make();
    VF_MUST_ACCEPT();
    int len = 0, same = 1;
    for (int i = 0; i <= NE; i++) { len += in_a[i]; if (in_a[i] != in_b[i]) same = 0; }
    VF_POST("number of elements", set_len(&sa) == len);
    VF_POST("equality", set_eq(&sa, &sb) == same);
    Set *c = copy_set(&sa);
    VF_POST("sa copy has the same elements", in_set(c, q) == in_a[q] && c->elements != sa.elements);
    copy_set_to(&sd, &sb);
    VF_POST("copying to sa set", in_set(&sd, q) == in_b[q]);
    delete_from_set(&sa, v);
    VF_POST("deleting removes the element and no other", in_set(&sa, q) == (q == v ? 0 : in_a[q]));
    cache_set_elements(&sb);
    int n = 0;
    for (int i = 0; i <= NE; i++) if (in_b[i]) { VF_POST("cached element", sb.cached_elements[n] == i); n++; }
    VF_POST("number of cached elements", sb.cached_element_count == n);
    empty_set(&sb);
    VF_POST("an empty set has no element", !in_set(&sb, q));
    VF_POST("sa new set has no element", !in_set(new_set(NE), q));
    VF_REACH();
}
#endif
#ifdef STACKS
void h_stack(void) {
    VF_BEGIN();
    static Stack s; static int e[MAX_STACK_SIZE];
    long pos = vf_range(0, MAX_STACK_SIZE), q = vf_range(0, MAX_STACK_SIZE - 1), v = (int) vf_long(), old = (int) vf_long();
    s.elements = e; s.pos = pos;
    e[q] = old;
    if (pos > 0) VF_MUST_ACCEPT();
    push_onto_stack(&s, v);
    VF_POST("sa full stack is refused", pos > 0);
    VF_POST("push adds one element", s.pos == pos - 1 && stack_top(&s) == v);
    VF_POST("push leaves the others", q < pos || e[q] == old);
    VF_POST("pop returns the element pushed last", pop_from_stack(&s) == v && s.pos == pos);
    VF_REACH();
}
#endif
#ifdef LISTS
void h_list(void) {
    VF_BEGIN();
    static int x[NE + 1];
    long q = vf_range(0, NE);
    VF_MUST_ACCEPT();
    for (int first = 0; first <= 3; first++) {
        List *l = new_list(first);
        VF_POST("a new list is empty", l->length == 0);
        for (int i = 0; i <= NE; i++) {
            append_to_list(l, &x[i]);
            VF_POST("length of the list", l->length == i + 1);
            for (int j = 0; j <= i; j++) VF_POST("elements are kept in order", l->elements[j] == &x[j]);
            VF_POST("the elements fit into the memory", l->allocated >= l->length);
        }
    }
    VF_REACH();
}
#endif
