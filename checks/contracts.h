// Contracts of small allocation/diagnostic callees that many tasks rely on. Each is enforced on the real body by a task of its own
// (check C01 `helpers`, check M01), so that callers may be checked against the contract.
#ifndef CONTRACTS_H
#define CONTRACTS_H
static int post_blank_value(Value *v) {
    return !v->is_constant && !v->vreg && !v->type && !v->int_value && !v->is_lvalue && !v->is_address_of && !v->is_string_literal && !v->offset
        && !v->global_symbol && !v->bit_field_size && !v->bit_field_offset && !v->address_of_offset && !v->local_index && !v->stack_index && !v->is_lvalue_in_register;
}
static int post_blank_type(Type *t, int type) {
    return t->type == type && !t->is_unsigned && !t->is_const && !t->is_volatile && !t->target && !t->struct_or_union_desc && !t->function && !t->tag && !t->array_size;
}
Value *new_value(void)
VF_CONTRACT(__CPROVER_requires(1)
    __CPROVER_ensures(__CPROVER_is_fresh(__CPROVER_return_value, sizeof(Value)) && post_blank_value(__CPROVER_return_value))
    __CPROVER_assigns());
Type *new_type(int type)
VF_CONTRACT(__CPROVER_requires(1)
    __CPROVER_ensures(__CPROVER_is_fresh(__CPROVER_return_value, sizeof(Type)) && post_blank_type(__CPROVER_return_value, type))
    __CPROVER_assigns());
void error(char *format, ...)
VF_CONTRACT(__CPROVER_requires(!g_must_accept) __CPROVER_ensures(0) __CPROVER_assigns());
void warning(char *format, ...)
VF_CONTRACT(__CPROVER_requires(1) __CPROVER_ensures(1) __CPROVER_assigns());

#ifdef VF_PLAIN
// The same contracts in executable form (light mode): assert the precondition, return any result allowed by the postcondition
Value *vfc_new_value(void) { Value z = {0}; Value *v = malloc(sizeof(Value)); __CPROVER_assume(v != 0); *v = z; return v; }
Type *vfc_new_type(int type) { Type z = {0}; Type *t = malloc(sizeof(Type)); __CPROVER_assume(t != 0); *t = z; t->type = type; return t; }
#endif
#endif
