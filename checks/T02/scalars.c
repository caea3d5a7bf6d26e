// Contracts of the layout of types (types.c): sizes and alignments of the System V AMD64 ABI, offsets of members and bit-fields.
#include "types.c"
#include "vf.h"
#include "../cspec.h"
#include "../contracts.h"

// ---------------------------------------------------------------- the ABI
static int sp_scalar_size(int t) {
    return t == TYPE_VOID || t == TYPE_CHAR ? 1 : t == TYPE_SHORT ? 2 : t == TYPE_INT || t == TYPE_ENUM || t == TYPE_FLOAT ? 4 : t == TYPE_LONG_DOUBLE ? 16 : 8;
}

#define N 1
typedef struct { int kind, count, nested, nested_packed, inner_kind, inner_count, bf, bf_size, bf_named; } Desc;
static Desc in_d[N];
static Type m_type[N], m_elem[N], m_inner[N], m_inner_elem[N];
static StructOrUnionMember m_mem[N], m_inner_mem[N];
static StructOrUnionMember *m_list[N + 1], *m_inner_list[N][2];
static StructOrUnion m_inner_s[N];

static int scalar_kind(int k) { // 0..8
    return k == 0 ? TYPE_CHAR : k == 1 ? TYPE_SHORT : k == 2 ? TYPE_INT : k == 3 ? TYPE_LONG : k == 4 ? TYPE_FLOAT : k == 5 ? TYPE_DOUBLE : k == 6 ? TYPE_LONG_DOUBLE : k == 7 ? TYPE_PTR : TYPE_ENUM;
}

static void draw(Desc *d) {
    d->kind = scalar_kind(vf_range(0, 8)); d->count = vf_range(0, 1 << 20);  // 0: not an array
    d->nested = vf_range(0, 1); d->nested_packed = vf_range(0, 1);
    d->bf = vf_range(0, 1); d->bf_size = vf_range(0, 32); d->bf_named = vf_range(0, 1);
}

static long sp_obj_size(Desc *d) { return sp_scalar_size(d->kind) * (long) (d->count ? d->count : 1); }
static long sp_obj_align(Desc *d) { return d->nested && d->nested_packed ? 1 : sp_scalar_size(d->kind); }

static void make(int i, Desc *d) {
    Type zt = {0}; StructOrUnionMember zm = {0}; StructOrUnion zs = {0};
    m_type[i] = zt; m_elem[i] = zt; m_mem[i] = zm; m_inner_mem[i] = zm; m_inner_s[i] = zs; m_inner[i] = zt;
    m_list[i] = &m_mem[i];
    m_mem[i].identifier = "m"; m_mem[i].type = &m_type[i];
    if (d->bf) {
        m_mem[i].is_bit_field = 1; m_mem[i].bit_field_size = d->bf_size;
        m_type[i].type = TYPE_INT;
        if (!d->bf_named) m_mem[i].identifier = 0;
        return;
    }
    Type *t = &m_type[i];
    if (d->nested) {
        t->type = TYPE_STRUCT_OR_UNION; t->struct_or_union_desc = &m_inner_s[i];
        m_inner_s[i].is_packed = d->nested_packed; m_inner_s[i].members = m_inner_list[i];
        m_inner_list[i][0] = &m_inner_mem[i]; m_inner_list[i][1] = 0;
        m_inner_mem[i].identifier = "n"; m_inner_mem[i].type = &m_inner[i];
        m_inner_s[i].size = sp_obj_size(d);
        t = &m_inner[i];
    }
    if (d->count) { t->type = TYPE_ARRAY; t->array_size = d->count; t->target = &m_elem[i]; t = &m_elem[i]; }
    t->type = d->kind;
}

// ---------------------------------------------------------------- sizes and alignments of types
void h_scalar(void) {
    Desc d;
    VF_BEGIN();
    draw(&d);
    VF_ASSUME(!d.bf);
    make(0, &d);
    VF_MUST_ACCEPT();
    VF_POST("size of the type", get_type_size(&m_type[0]) == sp_obj_size(&d));
    VF_POST("alignment of the type", get_type_alignment(&m_type[0]) == sp_obj_align(&d));
    VF_REACH();
}

