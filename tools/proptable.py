CBMC = 'code contracts on the real functions, discharged with CBMC (SAT and SMT back ends)'
prop('C01', 'Constant expressions are evaluated with the arithmetic of C',
     'The value and the type of every operator and cast applied to integer or floating point constants in a constant expression (array sizes, case labels, enumerators, bit-field widths, static initialisers) are the ones C defines: integer promotions, usual arithmetic conversions, wrap-around of unsigned types, int results of comparisons and logical operators, truncation and sign extension of casts. Divisions by zero and shifts out of range are excluded.',
     ['inputs'], 'all operand values and all pairs of arithmetic operand types, for each operator and each cast',
     'The tests evaluate a few dozen constant expressions; the value space is 2^128 per operator and pair of types, and the wrong results sit at sign and width boundaries no test samples.',
     ['constexpr.c', 'types.c', 'parser.c'],
     [('evaluate_const_binary_int_operation', 'constexpr.c'), ('evaluate_const_unary_int_operation', 'constexpr.c'), ('evaluate_const_binary_fp_operation', 'constexpr.c'),
      ('evaluate_const_unary_fp_operation', 'constexpr.c'), ('cast_constant_value', 'constexpr.c'), ('operation_type', 'parser.c'), ('integer_promote_type', 'types.c')],
     CBMC, 'every obligation over all values; floating point + - * / only with few mantissa bits (bounded, not counted)')
ASMVC = 'contracts on the functions wcc emits: verification conditions generated from the machine code of the current compiler, discharged with z3'
TVNOTE = 'every function of the stated families is proved for all inputs; the set of programs is bounded (families), so the obligations are reported as bounded and never counted as proofs about all programs'
CG = ['instrrules.c', 'instrsel.c', 'codegen.c', 'regalloc.c', 'ssa.c', 'ir.c', 'parser.c']
CGM = [('instrrules.c rules', 'instrrules.c'), ('select_instructions', 'instrsel.c'), ('allocate_registers', 'regalloc.c'), ('optimize_arithmetic_operations', 'ssa.c'), ('add_final_x86_instructions', 'codegen.c'), ('arithmetic_operation', 'parser.c')]
prop('E01', 'Integer expressions compute the value C defines',
     'The code emitted for an integer expression computes, for all operand values with defined behaviour, the value C defines: + - * / % & | ^ << >>, comparisons, && and ||, ! ~ unary minus, ++ and --, compound assignment and casts, on every pair of the eight integer types, with operands that are parameters, globals, constants or reached through pointers, and with the result returned, stored, branched on or selected by ?: - and it changes no other memory.',
     ['inputs'], 'all operand values, for each of about 27000 functions covering operators, pairs of types, operand positions and constants at type boundaries',
     'Tests run single operand values for some pairs of types; a wrong rule for one size, one signedness or one operand position needs the values where the wrong width or sign shows.',
     CG, CGM, ASMVC, TVNOTE, level='translation_validation')
prop('E02', 'Floating point expressions and conversions compute the IEEE values C defines',
     'The code emitted for float, double and long double arithmetic, comparisons (also with NaN), truth values, compound assignment, ++/--, and for the conversions between all integer and floating point types, in both directions and in registers, memory and globals, computes the correctly rounded value C and IEEE 754 define; the operands keep their values. Conversions to an integer type that cannot hold the value are excluded.',
     ['inputs'], 'all bit patterns of the operands for each of about 3000 functions over all pairs of types',
     'Tests check a few values per conversion; NaN operands, values from 2^31, 2^32 and 2^63 and the sign of zero are where the code sequences differ.',
     CG, CGM, ASMVC, TVNOTE, level='translation_validation')
prop('E03', 'Pointer arithmetic and array accesses reach the right element',
     'The code emitted for pointer + integer, pointer - pointer, ++ and -- and comparisons of pointers, indexing of arrays and pointers (also two-dimensional arrays and local arrays), & and * reads and writes exactly the element C defines, for every index type and every element size, and changes no other memory.',
     ['inputs'], 'all pointers, index values and memory contents for each of about 2700 functions over element types and index types',
     'Tests use small non-negative indices of type int; sign extension, scaling and narrow index types only show with negative, large or narrow indices.',
     CG, CGM + [('parse_addition', 'parser.c'), ('add_indirect', 'parser.c')], ASMVC, TVNOTE, level='translation_validation')
prop('E04', 'Struct, union and bit-field members are read and written at the place the ABI gives them',
     'The code emitted for accesses to members of structs, unions, nested and packed structs and bit-fields (through ., ->, globals, locals and arrays), struct assignment, sizeof, address-of, compound assignment and ++/-- of members reads and writes exactly the bytes, and for bit-fields exactly the bits, that the System V ABI assigns to the member; all other members keep their values.',
     ['inputs'], 'all memory contents and values, for functions over generated struct, union and bit-field layouts (seeded)',
     'Tests check hand written layouts; the neighbours of a member or bit-field are changed only for particular offsets, widths and old contents.',
     CG + ['types.c'], CGM + [('complete_struct_or_union', 'types.c'), ('load_bit_field', 'parser.c')], ASMVC, TVNOTE, level='translation_validation')
prop('E05', 'Calls follow the System V AMD64 calling convention, on both sides, for every prototype',
     'A call passes every argument, converted to the type of the parameter (or promoted, for variadic arguments), in the register or stack slot the System V AMD64 convention assigns to it (INTEGER, SSE, MEMORY and x87 classes, structs and unions split over registers, alignment of stack slots and of the stack, al for variadic calls), takes the result from where the convention puts it, directly or through a function pointer; a function finds all its parameters there, returns its result there and preserves the callee saved registers, the stack pointer and the x87 state.',
     ['inputs'], 'all argument values and memory contents, for about 1 800 generated prototypes and functions (all pairs of scalar types for conversions; random prototypes of up to 14 parameters with structs, seeded)',
     'The number of prototypes is unbounded; the tests call a few hand picked ones, mostly between two functions compiled by the same compiler, so a consistent deviation from the convention is not seen.',
     CG + ['functions.c'], CGM + [('add_function_call_arg_moves', 'functions.c'), ('add_function_param_moves', 'functions.c'), ('add_function_param_to_allocation', 'functions.c'), ('add_function_call_result_moves', 'functions.c')], ASMVC, TVNOTE, level='translation_validation')
prop('E06', 'Control flow executes the statements C says, in every order of events',
     'The code emitted for if, while, do, for, switch (fall through, default anywhere, nested, values at type boundaries), break, continue, goto, && || ?: and the comma operator, with variables carried around loops, shadowed, assigned on some paths only or live across calls, executes exactly the statements C defines in order: on every path the same calls are made with the same arguments, the same value is returned and the same memory is left.',
     ['inputs'], 'all operand values, memory contents and results of calls, for each of about 600 hand written shapes and 400 random structured functions (seeded); loops run at most four times (bounds masked in the source)',
     'Tests run one path of a function; wrong phi moves, liveness or branch targets show only for one combination of decisions.',
     CG, CGM + [('parse_statement', 'parser.c'), ('insert_phi_functions', 'ssa.c'), ('make_liveout', 'ssa.c'), ('coalesce_live_ranges', 'ssa.c')], ASMVC, TVNOTE, level='translation_validation')
prop('E07', 'A value keeps its meaning in whatever register or stack slot it is put',
     'Values that are alive at the same time never share a register: the operands of every operator, cast and call keep their values for later uses, results are not overwritten by scratch registers of other operations (division, shifts, conversions, long double comparisons), and a function with more live values than registers, of any mix of integer and floating point types, computes the same result and leaves the same memory as one where nothing is spilled.',
     ['inputs'], 'all operand values for each of about 2000 functions: every operator, cast and call with its operands used again, and again with 14 other integer and 15 other floating point values alive; and random straight line functions (seeded)',
     'The register an operation gets depends on everything around it; a missing interference or a wrong spill shows only in the combinations in which the two values meet in one register, which tests of single operations do not produce.',
     CG, CGM + [('make_interference_graph', 'ssa.c'), ('add_spill_code', 'instrsel.c'), ('color_vreg', 'regalloc.c')], ASMVC, TVNOTE, level='translation_validation')
prop('E08', 'Initialisers give every byte of an object the value C defines',
     'A static or automatic initialiser (scalars of every type, arrays, strings, nested structs, unions and bit-fields, brace elision, addresses of objects, functions, elements and members) gives every member and element the value C defines, converted to its type, zeroes the members and elements without initialiser, and writes nothing outside the object; expressions of struct type initialise whole members.',
     ['inputs'], 'every byte and relocation of the emitted data, for about 1000 generated declarations (seeded), and all operand values for automatic initialisers',
     'Tests initialise hand picked objects and read back some members; the wrong bytes sit at particular combinations of nesting, elision, bit-field positions and types.',
     ['parser.c', 'types.c', 'constexpr.c', 'codegen.c', 'ir.c'],
     [('add_initializer', 'parser.c'), ('type_iterator_next', 'types.c'), ('append_initializer', 'parser.c'), ('add_bit_field_initializer', 'parser.c'), ('output_symbol', 'codegen.c'), ('add_zero_memory_instructions', 'ir.c')], ASMVC, TVNOTE, level='translation_validation')
prop('O01', 'Arithmetic simplifications keep the value of every instruction',
     'An integer multiplication, division or remainder by a constant that the optimiser replaces by a move, shift or mask gives, for every value of the other operand, the same result as the original instruction; floating point products and quotients are only replaced by the operand when the constant is 1; every other instruction is left as it is.',
     ['inputs'], 'all values of the operands and of the constant, for int and long, signed and unsigned',
     'Tests look at the instruction that is produced for a few constants; that it computes the same value is a statement about 2^64 operand values for each of 2^64 constants.',
     ['ssa.c'], [('optimize_integer_arithmetic_operation', 'ssa.c'), ('optimize_floating_point_arithmetic_operation', 'ssa.c')], CBMC,
     'complete: loops run at most 64 times and are unwound completely; both operands are assumed to have the type of the result')
prop('T02', 'Sizes, alignments and member offsets are those of the System V ABI',
     'The size and alignment of every type, the offset of every member of a struct or union, the bit offset of every bit-field and the padding at the end of the object are those the System V AMD64 ABI (and gcc, for packed structs) defines, so that objects can be shared with code from other compilers and sizeof is right; unnamed and zero width bit-fields and nested structs included.',
     ['inputs'], 'all scalar types and array bounds; structs and unions of up to four members, each of any size and alignment, a nested struct or a bit-field of any width at any position',
     'The tests lay out a few hand written structs; wrong padding shows only for particular sequences of sizes, alignments and bit-field widths.',
     ['types.c'], [('get_type_size', 'types.c'), ('get_type_alignment', 'types.c'), ('recursive_complete_struct_or_union', 'types.c')], CBMC,
     'scalars and arrays for all types and bounds; struct layout bounded to four members (loops over members unwound), nested structs one level deep')
prop('X01', 'Tokens and literals are those of C99 6.4',
     'The text of a program is divided into the tokens C99 6.4 says: the longest punctuator, keyword or identifier; the value and type of integer constants of any base and suffix, of character constants with any escape sequence, the type and value of floating point constants, and the elements of string literals (wide ones and concatenations included) are those the standard defines. A token that does not fit into its buffer is refused, never truncated or written behind the end of the buffer.',
     ['inputs'], 'all texts: decimal constants of any length and suffix, the other tokens up to a stated number of characters',
     'The tests contain a few dozen literals; a wrong value, type or length shows only for particular digits, suffixes, escapes or neighbours.',
     ['lexer.c'], [('next', 'lexer.c'), ('lex_non_hex_literal', 'lexer.c'), ('lex_hex_literal', 'lexer.c'), ('finish_integer_constant', 'lexer.c'), ('lex_string_literal', 'lexer.c'), ('lex_single_string_literal', 'lexer.c'), ('skip_whitespace', 'lexer.c')], CBMC,
     'decimal constants, suffixes and punctuators complete; other tokens bounded in length as stated per task; wide string literals in the thorough tier; conversion of floating point text is the C library\'s (assumed)')
prop('M01', 'Maps, sets, lists and stacks keep exactly what was put into them',
     'The containers every pass of the compiler relies on behave like finite functions, sets and sequences after any history of operations: a key looked up in a map has the value it was last given, or none if it never had one or was deleted, whatever the collisions, deletions and rehashes in between; iteration visits every key once; set operations are the mathematical ones; a stack returns what was pushed last; a list keeps its elements in order.',
     ['histories', 'inputs'], 'all contents of a map satisfying an inductive invariant, so any history of put, delete and lookup; all keys and hash values',
     'The tests exercise a few sequences; the failures need particular collisions between live and deleted keys around a rehash.',
     ['longmap.c', 'strmap.c', 'set.c', 'stack.c', 'list.c'], [('strmap_put', 'strmap.c'), ('strmap_get', 'strmap.c'), ('strmap_delete', 'strmap.c'), ('maybe_rehash', 'strmap.c'), ('longmap_put', 'longmap.c'), ('longmap_get', 'longmap.c'), ('longmap_delete', 'longmap.c'), ('set_union', 'set.c')], CBMC,
     'the invariant is proved inductive for tables of 4 places (8 in the thorough tier), with any contents, keys and hash values; new maps for the real size')
