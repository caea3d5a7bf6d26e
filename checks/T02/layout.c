// Contracts of the layout of structs and unions (types.c): offsets of members and bit-fields, size and alignment (System V AMD64 ABI).
#include "types.c"
#include "vf.h"
#include "../cspec.h"
#include "../contracts.h"

#ifndef N
#define N 4
#endif
// A member is an object of some type, known to the layout only by the contracts of get_type_size and get_type_alignment
// (enforced on the real functions by scalars.c), or a bit-field.
typedef struct { int lalign, size, bf, bf_size, bf_named, nested; } Desc;
static Desc in_d[N];
static Type m_type[N];
static StructOrUnionMember m_mem[N];
static StructOrUnionMember *m_list[N + 1];
static long sp_align_up(long x, int l) { return (x + (1L << l) - 1) >> l << l; }

#ifdef VF_PLAIN
// the size is any multiple of the alignment, an alignment any power of two up to 16; both are functions of the type
int vfc_get_type_size(Type *t) { return t->array_size; }
#ifdef ALIGNMENT_BY_CONTRACT
int vfc_get_type_alignment(Type *t) { return 1 << t->storage_class; }
// nested structs are copied before they are laid out; only the copy is laid out here
StructOrUnion *vfc_dup_struct_or_union(StructOrUnion *s) { return s; }
#endif
#endif

static int align_kind(int l) { return l == 0 ? TYPE_CHAR : l == 1 ? TYPE_SHORT : l == 2 ? TYPE_INT : l == 3 ? TYPE_LONG : TYPE_LONG_DOUBLE; }

static void draw(Desc *d) {
    d->lalign = vf_range(0, 4); d->size = vf_range(0, 1 << 24);
    d->bf = vf_range(0, 1); d->bf_size = vf_range(0, 32); d->bf_named = vf_range(0, 1); d->nested = vf_range(0, 1);
}
static StructOrUnion m_inner[N];
static StructOrUnionMember inner_mem[N], *inner_list[N][2];
static Type inner_type[N];
static void make_inner(int i, Type zt, StructOrUnionMember zm) {
    StructOrUnion zs = {0};
    inner_type[i] = m_type[i]; inner_mem[i] = zm; inner_mem[i].identifier = "n"; inner_mem[i].type = &inner_type[i];
    inner_list[i][0] = &inner_mem[i]; inner_list[i][1] = 0; m_inner[i] = zs; m_inner[i].members = inner_list[i];
    m_type[i].type = TYPE_STRUCT_OR_UNION; m_type[i].target = 0; m_type[i].struct_or_union_desc = &m_inner[i];
}
static void make(int i, Desc *d) {
    Type zt = {0}; StructOrUnionMember zm = {0};
    m_type[i] = zt; m_mem[i] = zm; m_list[i] = &m_mem[i];
    m_mem[i].identifier = d->bf && !d->bf_named ? 0 : "m"; m_mem[i].type = &m_type[i];
#ifdef ALIGNMENT_BY_CONTRACT
    m_type[i].type = TYPE_INT; m_type[i].storage_class = d->lalign; m_type[i].array_size = d->size;  // ghosts: alignment and size of the type
    if (d->bf) { m_mem[i].is_bit_field = 1; m_mem[i].bit_field_size = d->bf_size; }
    else if (d->nested) make_inner(i, zt, zm);
#ifdef VF_CBMC
    return;
#endif
#endif
    if (d->bf) { m_mem[i].is_bit_field = 1; m_mem[i].bit_field_size = d->bf_size; m_type[i].type = TYPE_INT; m_type[i].array_size = 4; return; }
    m_type[i].type = align_kind(d->lalign);
    m_type[i].array_size = d->size;       // ghost: the size of the type
#ifndef VF_CBMC                           // natively the type is an array of elements of that alignment
    static Type elem[N];
    elem[i] = zt; elem[i].type = m_type[i].type;
    m_type[i].type = TYPE_ARRAY; m_type[i].target = &elem[i]; m_type[i].array_size = d->size >> d->lalign;
    if (d->nested) make_inner(i, zt, zm); // or a struct with such a member
#endif
}
static int valid(Desc *d) { return (d->size & ((1 << d->lalign) - 1)) == 0 && d->size > 0 && (!d->bf || d->bf_size || !d->bf_named); }

// The alignment of a struct is the largest of its members
void h_struct_alignment(void) {
    StructOrUnion s, zs = {0}; Type t, zt = {0};
    VF_BEGIN();
    s = zs; t = zt;
    int want = 0;
    for (int i = 0; i < N; i++) draw(&in_d[i]);
    long n = vf_range(1, N), packed = vf_range(0, 1), is_union = vf_range(0, 1);
    for (int i = 0; i < N; i++) {
        VF_ASSUME(valid(&in_d[i]));
        make(i, &in_d[i]);
        if (i >= n) { m_list[i] = 0; continue; }
        int a = in_d[i].bf ? (in_d[i].bf_named ? 2 : 0) : in_d[i].lalign;
        if (a > want) want = a;
    }
    m_list[N] = 0;
    s.members = m_list; s.is_packed = packed; s.is_union = is_union;
    t.type = TYPE_STRUCT_OR_UNION; t.struct_or_union_desc = &s;
    VF_MUST_ACCEPT();
    VF_POST("alignment of a struct", get_type_alignment(&t) == (packed ? 1 : 1 << want));
    VF_REACH();
}

int recursive_complete_struct_or_union(StructOrUnion *s, int bit_offset);

static void layout(int is_union) {
    StructOrUnion s, zs = {0};
    s = zs;
    for (int i = 0; i < N; i++) draw(&in_d[i]);
    long n = vf_range(1, N), packed = vf_range(0, 1);
    for (int i = 0; i < N; i++) {
        VF_ASSUME(valid(&in_d[i]));
        make(i, &in_d[i]);
        if (i >= n) { m_list[i] = 0; continue; }
#ifndef VF_KNOWN
        // Known finding packed-bit-fields: bit-fields in packed structs are aligned like those in other structs
        VF_ASSUME(!(packed && in_d[i].bf));
#endif
    }
    m_list[N] = 0;
    s.members = m_list; s.is_packed = packed; s.is_union = is_union; s.is_incomplete = 1;
    VF_MUST_ACCEPT();
    int r = recursive_complete_struct_or_union(&s, 0);
    long pos = 0, end = 0;      // in bits
    int align = 0;
    for (int i = 0; i < N; i++) if (i < n) {
        Desc *d = &in_d[i];
        long size, at;
        if (is_union) pos = 0;
        if (d->bf) {
            size = d->bf_size;
            at = pos;
            if (!size) at = sp_align_up(at, 5);
            else if (!packed && at >> 5 != (at + size - 1) >> 5) at = sp_align_up(at, 5);
            if (!packed && d->bf_named && align < 2) align = 2;
        }
        else {
            int a = packed ? 0 : d->lalign;
            at = sp_align_up(pos, 3 + a); size = 8L * d->size;
            if (a > align) align = a;
        }
        VF_POST("offset of a member", m_mem[i].offset == at >> 3);
        VF_POST("offset of a bit-field in bits", !d->bf || m_mem[i].bit_field_offset == at);
        // the next member is placed relative to where this one is (equal to `at` by the obligations above)
        pos = (d->bf ? m_mem[i].bit_field_offset : 8L * m_mem[i].offset) + size;
        if (pos > end) end = pos;
    }
    VF_POST("size of the struct or union", s.size == sp_align_up(end, 3 + align) >> 3 && r == 8 * (long) s.size);
    VF_POST("the type is complete", !s.is_incomplete);
    VF_REACH();
}
void h_struct(void) { VF_BEGIN(); layout(0); }
void h_union(void) { VF_BEGIN(); layout(1); }
