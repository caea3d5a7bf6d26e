import sys; sys.path.insert(0,'/verif/tools'); sys.dont_write_bytecode = True
from mkseed import *
make('C01-le-unsigned-long','C01',[('constexpr.c','else if (ul) r = s1ul <= s2ul;','else if (ul) r = s1sl <= s2ul - 1 + (s1ul == s2ul) || s1ul == s2ul;')],
 'a constant <= with an unsigned long left operand or right operand of zero','unsigned long constants compare wrongly with <= against 0',
 cdemo('int a[(5UL <= 0UL) ? 1 : 2];\nint main() { return sizeof(a) != 2 * sizeof(int); }'))
make('C01-cast-ushort','C01',[('constexpr.c','dst->int_value = (unsigned short) src->int_value;','dst->int_value = (short) src->int_value;')],
 'a cast of a constant >= 32768 to unsigned short in a constant expression','the cast constant is sign extended',
 cdemo('int a[((unsigned short) 40000) > 0 ? 1 : 2];\nint main() { return sizeof(a) != sizeof(int); }'))
make('C01-and-int','C01',[('constexpr.c','else if (ul) r = s1ul &  s2ul;','else if (ul) r = s1ui &  s2ul;')],
 'a constant & of unsigned long operands with bits above 31','the high half of the result is lost',
 cdemo('enum { A = (0xff00000000UL & 0x1200000000UL) >> 32 };\nint main() { return A != 0x12; }'))
make('C01-int-result-unsigned','C01',[('types.c','            is_insigned = (src1->type > src2->type && src1->is_unsigned) || (src2->type > src1->type && src2->is_unsigned);','            is_insigned = (src1->type > src2->type && src1->is_unsigned) || (src1->type < src2->type && src1->is_unsigned);')] if 0 else
 [('constexpr.c','(dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned) dst->int_value = (         char ) src->int_value','(dst_type->type == TYPE_CHAR  && !dst_type->is_unsigned) dst->int_value = src->int_value > 0xff ? (char) src->int_value : src->int_value')],
 'a cast to char of a constant between 128 and 255','the constant keeps a value a char cannot hold',
 cdemo('int a[((char) 200) < 0 ? 1 : 2];\nint main() { return sizeof(a) != sizeof(int); }'))
