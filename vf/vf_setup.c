// Default per-run set up of the compiler's own allocation bookkeeping, used natively only.
char init_memory_management_for_translation_unit(void);
char free_memory_for_translation_unit(void);
__attribute__((weak)) void vf_native_setup(void) { init_memory_management_for_translation_unit(); }
__attribute__((weak)) void vf_native_teardown(void) { }
