{
u!(abs,abs_i16,i16,i16);
u!(abs,abs_i16_i32,i16,i32);
u!(abs,abs_i16_i64,i16,i64);
u!(abs,abs_i16_u16,i16,u16);
u!(abs,abs_i16_u32,i16,u32);
u!(abs,abs_i16_u64,i16,u64);
u!(abs,abs_i32,i32,i32);
u!(abs,abs_i32_i64,i32,i64);
u!(abs,abs_i32_u32,i32,u32);
u!(abs,abs_i32_u64,i32,u64);
u!(abs,abs_i64,i64,i64);
u!(abs,abs_i64_u64,i64,u64);
u!(abs,abs_i8,i8,i8);
u!(abs,abs_i8_i16,i8,i16);
u!(abs,abs_i8_i32,i8,i32);
u!(abs,abs_i8_i64,i8,i64);
u!(abs,abs_i8_u16,i8,u16);
u!(abs,abs_i8_u32,i8,u32);
u!(abs,abs_i8_u64,i8,u64);
u!(abs,abs_i8_u8,i8,u8);
u!(abs,abs_u16,u16,u16);
u!(abs,abs_u16_i32,u16,i32);
u!(abs,abs_u16_i64,u16,i64);
u!(abs,abs_u16_u32,u16,u32);
u!(abs,abs_u16_u64,u16,u64);
u!(abs,abs_u32,u32,u32);
u!(abs,abs_u32_i64,u32,i64);
u!(abs,abs_u32_u64,u32,u64);
u!(abs,abs_u64,u64,u64);
u!(abs,abs_u8,u8,u8);
u!(abs,abs_u8_i16,u8,i16);
u!(abs,abs_u8_i32,u8,i32);
u!(abs,abs_u8_i64,u8,i64);
u!(abs,abs_u8_u16,u8,u16);
u!(abs,abs_u8_u32,u8,u32);
u!(abs,abs_u8_u64,u8,u64);
b!(add,add_i16,i16,i16,i16);
b!(add,add_i16_i32,i16,i16,i32);
b!(add,add_i16_i32_i32,i16,i32,i32);
b!(add,add_i16_i32_i64,i16,i32,i64);
b!(add,add_i16_i64,i16,i16,i64);
b!(add,add_i16_i8_i16,i16,i8,i16);
b!(add,add_i16_i8_i32,i16,i8,i32);
b!(add,add_i16_i8_i64,i16,i8,i64);
b!(add,add_i16_u16_i32,i16,u16,i32);
b!(add,add_i16_u16_i64,i16,u16,i64);
b!(add,add_i16_u32_i64,i16,u32,i64);
b!(add,add_i16_u8_i16,i16,u8,i16);
b!(add,add_i16_u8_i32,i16,u8,i32);
b!(add,add_i16_u8_i64,i16,u8,i64);
b!(add,add_i32,i32,i32,i32);
b!(add,add_i32_i16_i32,i32,i16,i32);
b!(add,add_i32_i16_i64,i32,i16,i64);
b!(add,add_i32_i64,i32,i32,i64);
b!(add,add_i32_i8_i32,i32,i8,i32);
b!(add,add_i32_i8_i64,i32,i8,i64);
b!(add,add_i32_u16_i32,i32,u16,i32);
b!(add,add_i32_u16_i64,i32,u16,i64);
b!(add,add_i32_u32_i64,i32,u32,i64);
b!(add,add_i32_u8_i32,i32,u8,i32);
b!(add,add_i32_u8_i64,i32,u8,i64);
b!(add,add_i64,i64,i64,i64);
b!(add,add_i8,i8,i8,i8);
b!(add,add_i8_i16,i8,i8,i16);
b!(add,add_i8_i16_i16,i8,i16,i16);
b!(add,add_i8_i16_i32,i8,i16,i32);
b!(add,add_i8_i16_i64,i8,i16,i64);
b!(add,add_i8_i32,i8,i8,i32);
b!(add,add_i8_i32_i32,i8,i32,i32);
b!(add,add_i8_i32_i64,i8,i32,i64);
b!(add,add_i8_i64,i8,i8,i64);
b!(add,add_i8_u16_i32,i8,u16,i32);
b!(add,add_i8_u16_i64,i8,u16,i64);
b!(add,add_i8_u32_i64,i8,u32,i64);
b!(add,add_i8_u8_i16,i8,u8,i16);
b!(add,add_i8_u8_i32,i8,u8,i32);
b!(add,add_i8_u8_i64,i8,u8,i64);
b!(add,add_u16,u16,u16,u16);
b!(add,add_u16_i16_i32,u16,i16,i32);
b!(add,add_u16_i16_i64,u16,i16,i64);
b!(add,add_u16_i32,u16,u16,i32);
b!(add,add_u16_i32_i32,u16,i32,i32);
b!(add,add_u16_i32_i64,u16,i32,i64);
b!(add,add_u16_i64,u16,u16,i64);
b!(add,add_u16_i8_i32,u16,i8,i32);
b!(add,add_u16_i8_i64,u16,i8,i64);
b!(add,add_u16_u32,u16,u16,u32);
b!(add,add_u16_u32_i64,u16,u32,i64);
b!(add,add_u16_u32_u32,u16,u32,u32);
b!(add,add_u16_u32_u64,u16,u32,u64);
b!(add,add_u16_u64,u16,u16,u64);
b!(add,add_u16_u8_i32,u16,u8,i32);
b!(add,add_u16_u8_i64,u16,u8,i64);
b!(add,add_u16_u8_u16,u16,u8,u16);
b!(add,add_u16_u8_u32,u16,u8,u32);
b!(add,add_u16_u8_u64,u16,u8,u64);
b!(add,add_u32,u32,u32,u32);
b!(add,add_u32_i16_i64,u32,i16,i64);
b!(add,add_u32_i32_i64,u32,i32,i64);
b!(add,add_u32_i64,u32,u32,i64);
b!(add,add_u32_i8_i64,u32,i8,i64);
b!(add,add_u32_u16_i64,u32,u16,i64);
b!(add,add_u32_u16_u32,u32,u16,u32);
b!(add,add_u32_u16_u64,u32,u16,u64);
b!(add,add_u32_u64,u32,u32,u64);
b!(add,add_u32_u8_i64,u32,u8,i64);
b!(add,add_u32_u8_u32,u32,u8,u32);
b!(add,add_u32_u8_u64,u32,u8,u64);
b!(add,add_u64,u64,u64,u64);
b!(add,add_u8,u8,u8,u8);
b!(add,add_u8_i16,u8,u8,i16);
b!(add,add_u8_i16_i16,u8,i16,i16);
b!(add,add_u8_i16_i32,u8,i16,i32);
b!(add,add_u8_i16_i64,u8,i16,i64);
b!(add,add_u8_i32,u8,u8,i32);
b!(add,add_u8_i32_i32,u8,i32,i32);
b!(add,add_u8_i32_i64,u8,i32,i64);
b!(add,add_u8_i64,u8,u8,i64);
b!(add,add_u8_i8_i16,u8,i8,i16);
b!(add,add_u8_i8_i32,u8,i8,i32);
b!(add,add_u8_i8_i64,u8,i8,i64);
b!(add,add_u8_u16,u8,u8,u16);
b!(add,add_u8_u16_i32,u8,u16,i32);
b!(add,add_u8_u16_i64,u8,u16,i64);
b!(add,add_u8_u16_u16,u8,u16,u16);
b!(add,add_u8_u16_u32,u8,u16,u32);
b!(add,add_u8_u16_u64,u8,u16,u64);
b!(add,add_u8_u32,u8,u8,u32);
b!(add,add_u8_u32_i64,u8,u32,i64);
b!(add,add_u8_u32_u32,u8,u32,u32);
b!(add,add_u8_u32_u64,u8,u32,u64);
b!(add,add_u8_u64,u8,u8,u64);
u!(cast,cast_i16_i32,i16,i32);
u!(cast,cast_i16_i64,i16,i64);
u!(cast,cast_i16_i8,i16,i8);
u!(cast,cast_i16_u16,i16,u16);
u!(cast,cast_i16_u32,i16,u32);
u!(cast,cast_i16_u64,i16,u64);
u!(cast,cast_i16_u8,i16,u8);
u!(cast,cast_i32_i16,i32,i16);
u!(cast,cast_i32_i64,i32,i64);
u!(cast,cast_i32_i8,i32,i8);
u!(cast,cast_i32_u16,i32,u16);
u!(cast,cast_i32_u32,i32,u32);
u!(cast,cast_i32_u64,i32,u64);
u!(cast,cast_i32_u8,i32,u8);
u!(cast,cast_i64_i16,i64,i16);
u!(cast,cast_i64_i32,i64,i32);
u!(cast,cast_i64_i8,i64,i8);
u!(cast,cast_i64_u16,i64,u16);
u!(cast,cast_i64_u32,i64,u32);
u!(cast,cast_i64_u64,i64,u64);
u!(cast,cast_i64_u8,i64,u8);
u!(cast,cast_i8_i16,i8,i16);
u!(cast,cast_i8_i32,i8,i32);
u!(cast,cast_i8_i64,i8,i64);
u!(cast,cast_i8_u16,i8,u16);
u!(cast,cast_i8_u32,i8,u32);
u!(cast,cast_i8_u64,i8,u64);
u!(cast,cast_i8_u8,i8,u8);
u!(cast,cast_u16_i16,u16,i16);
u!(cast,cast_u16_i32,u16,i32);
u!(cast,cast_u16_i64,u16,i64);
u!(cast,cast_u16_i8,u16,i8);
u!(cast,cast_u16_u32,u16,u32);
u!(cast,cast_u16_u64,u16,u64);
u!(cast,cast_u16_u8,u16,u8);
u!(cast,cast_u32_i16,u32,i16);
u!(cast,cast_u32_i32,u32,i32);
u!(cast,cast_u32_i64,u32,i64);
u!(cast,cast_u32_i8,u32,i8);
u!(cast,cast_u32_u16,u32,u16);
u!(cast,cast_u32_u64,u32,u64);
u!(cast,cast_u32_u8,u32,u8);
u!(cast,cast_u64_i16,u64,i16);
u!(cast,cast_u64_i32,u64,i32);
u!(cast,cast_u64_i64,u64,i64);
u!(cast,cast_u64_i8,u64,i8);
u!(cast,cast_u64_u16,u64,u16);
u!(cast,cast_u64_u32,u64,u32);
u!(cast,cast_u64_u8,u64,u8);
u!(cast,cast_u8_i16,u8,i16);
u!(cast,cast_u8_i32,u8,i32);
u!(cast,cast_u8_i64,u8,i64);
u!(cast,cast_u8_i8,u8,i8);
u!(cast,cast_u8_u16,u8,u16);
u!(cast,cast_u8_u32,u8,u32);
u!(cast,cast_u8_u64,u8,u64);
b!(div,div_i16,i16,i16,i16);
b!(div,div_i16_i32,i16,i16,i32);
b!(div,div_i16_i32_i32,i16,i32,i32);
b!(div,div_i16_i32_i64,i16,i32,i64);
b!(div,div_i16_i64,i16,i16,i64);
b!(div,div_i16_i8_i16,i16,i8,i16);
b!(div,div_i16_i8_i32,i16,i8,i32);
b!(div,div_i16_i8_i64,i16,i8,i64);
b!(div,div_i16_u16_i32,i16,u16,i32);
b!(div,div_i16_u16_i64,i16,u16,i64);
b!(div,div_i16_u32_i64,i16,u32,i64);
b!(div,div_i16_u8_i16,i16,u8,i16);
b!(div,div_i16_u8_i32,i16,u8,i32);
b!(div,div_i16_u8_i64,i16,u8,i64);
b!(div,div_i32,i32,i32,i32);
b!(div,div_i32_i16_i32,i32,i16,i32);
b!(div,div_i32_i16_i64,i32,i16,i64);
b!(div,div_i32_i64,i32,i32,i64);
b!(div,div_i32_i8_i32,i32,i8,i32);
b!(div,div_i32_i8_i64,i32,i8,i64);
b!(div,div_i32_u16_i32,i32,u16,i32);
b!(div,div_i32_u16_i64,i32,u16,i64);
b!(div,div_i32_u32_i64,i32,u32,i64);
b!(div,div_i32_u8_i32,i32,u8,i32);
b!(div,div_i32_u8_i64,i32,u8,i64);
b!(div,div_i64,i64,i64,i64);
b!(div,div_i8,i8,i8,i8);
b!(div,div_i8_i16,i8,i8,i16);
b!(div,div_i8_i16_i16,i8,i16,i16);
b!(div,div_i8_i16_i32,i8,i16,i32);
b!(div,div_i8_i16_i64,i8,i16,i64);
b!(div,div_i8_i32,i8,i8,i32);
b!(div,div_i8_i32_i32,i8,i32,i32);
b!(div,div_i8_i32_i64,i8,i32,i64);
b!(div,div_i8_i64,i8,i8,i64);
b!(div,div_i8_u16_i32,i8,u16,i32);
b!(div,div_i8_u16_i64,i8,u16,i64);
b!(div,div_i8_u32_i64,i8,u32,i64);
b!(div,div_i8_u8_i16,i8,u8,i16);
b!(div,div_i8_u8_i32,i8,u8,i32);
b!(div,div_i8_u8_i64,i8,u8,i64);
b!(div,div_u16,u16,u16,u16);
b!(div,div_u16_i16_i32,u16,i16,i32);
b!(div,div_u16_i16_i64,u16,i16,i64);
b!(div,div_u16_i32,u16,u16,i32);
b!(div,div_u16_i32_i32,u16,i32,i32);
b!(div,div_u16_i32_i64,u16,i32,i64);
b!(div,div_u16_i64,u16,u16,i64);
b!(div,div_u16_i8_i32,u16,i8,i32);
b!(div,div_u16_i8_i64,u16,i8,i64);
b!(div,div_u16_u32,u16,u16,u32);
b!(div,div_u16_u32_i64,u16,u32,i64);
b!(div,div_u16_u32_u32,u16,u32,u32);
b!(div,div_u16_u32_u64,u16,u32,u64);
b!(div,div_u16_u64,u16,u16,u64);
b!(div,div_u16_u8_i32,u16,u8,i32);
b!(div,div_u16_u8_i64,u16,u8,i64);
b!(div,div_u16_u8_u16,u16,u8,u16);
b!(div,div_u16_u8_u32,u16,u8,u32);
b!(div,div_u16_u8_u64,u16,u8,u64);
b!(div,div_u32,u32,u32,u32);
b!(div,div_u32_i16_i64,u32,i16,i64);
b!(div,div_u32_i32_i64,u32,i32,i64);
b!(div,div_u32_i64,u32,u32,i64);
b!(div,div_u32_i8_i64,u32,i8,i64);
b!(div,div_u32_u16_i64,u32,u16,i64);
b!(div,div_u32_u16_u32,u32,u16,u32);
b!(div,div_u32_u16_u64,u32,u16,u64);
b!(div,div_u32_u64,u32,u32,u64);
b!(div,div_u32_u8_i64,u32,u8,i64);
b!(div,div_u32_u8_u32,u32,u8,u32);
b!(div,div_u32_u8_u64,u32,u8,u64);
b!(div,div_u64,u64,u64,u64);
b!(div,div_u8,u8,u8,u8);
b!(div,div_u8_i16,u8,u8,i16);
b!(div,div_u8_i16_i16,u8,i16,i16);
b!(div,div_u8_i16_i32,u8,i16,i32);
b!(div,div_u8_i16_i64,u8,i16,i64);
b!(div,div_u8_i32,u8,u8,i32);
b!(div,div_u8_i32_i32,u8,i32,i32);
b!(div,div_u8_i32_i64,u8,i32,i64);
b!(div,div_u8_i64,u8,u8,i64);
b!(div,div_u8_i8_i16,u8,i8,i16);
b!(div,div_u8_i8_i32,u8,i8,i32);
b!(div,div_u8_i8_i64,u8,i8,i64);
b!(div,div_u8_u16,u8,u8,u16);
b!(div,div_u8_u16_i32,u8,u16,i32);
b!(div,div_u8_u16_i64,u8,u16,i64);
b!(div,div_u8_u16_u16,u8,u16,u16);
b!(div,div_u8_u16_u32,u8,u16,u32);
b!(div,div_u8_u16_u64,u8,u16,u64);
b!(div,div_u8_u32,u8,u8,u32);
b!(div,div_u8_u32_i64,u8,u32,i64);
b!(div,div_u8_u32_u32,u8,u32,u32);
b!(div,div_u8_u32_u64,u8,u32,u64);
b!(div,div_u8_u64,u8,u8,u64);
b!(mul,mul_i16,i16,i16,i16);
b!(mul,mul_i16_i32,i16,i16,i32);
b!(mul,mul_i16_i32_i32,i16,i32,i32);
b!(mul,mul_i16_i32_i64,i16,i32,i64);
b!(mul,mul_i16_i64,i16,i16,i64);
b!(mul,mul_i16_i8_i16,i16,i8,i16);
b!(mul,mul_i16_i8_i32,i16,i8,i32);
b!(mul,mul_i16_i8_i64,i16,i8,i64);
b!(mul,mul_i16_u16_i32,i16,u16,i32);
b!(mul,mul_i16_u16_i64,i16,u16,i64);
b!(mul,mul_i16_u32_i64,i16,u32,i64);
b!(mul,mul_i16_u8_i16,i16,u8,i16);
b!(mul,mul_i16_u8_i32,i16,u8,i32);
b!(mul,mul_i16_u8_i64,i16,u8,i64);
b!(mul,mul_i32,i32,i32,i32);
b!(mul,mul_i32_i16_i32,i32,i16,i32);
b!(mul,mul_i32_i16_i64,i32,i16,i64);
b!(mul,mul_i32_i64,i32,i32,i64);
b!(mul,mul_i32_i8_i32,i32,i8,i32);
b!(mul,mul_i32_i8_i64,i32,i8,i64);
b!(mul,mul_i32_u16_i32,i32,u16,i32);
b!(mul,mul_i32_u16_i64,i32,u16,i64);
b!(mul,mul_i32_u32_i64,i32,u32,i64);
b!(mul,mul_i32_u8_i32,i32,u8,i32);
b!(mul,mul_i32_u8_i64,i32,u8,i64);
b!(mul,mul_i64,i64,i64,i64);
b!(mul,mul_i8,i8,i8,i8);
b!(mul,mul_i8_i16,i8,i8,i16);
b!(mul,mul_i8_i16_i16,i8,i16,i16);
b!(mul,mul_i8_i16_i32,i8,i16,i32);
b!(mul,mul_i8_i16_i64,i8,i16,i64);
b!(mul,mul_i8_i32,i8,i8,i32);
b!(mul,mul_i8_i32_i32,i8,i32,i32);
b!(mul,mul_i8_i32_i64,i8,i32,i64);
b!(mul,mul_i8_i64,i8,i8,i64);
b!(mul,mul_i8_u16_i32,i8,u16,i32);
b!(mul,mul_i8_u16_i64,i8,u16,i64);
b!(mul,mul_i8_u32_i64,i8,u32,i64);
b!(mul,mul_i8_u8_i16,i8,u8,i16);
b!(mul,mul_i8_u8_i32,i8,u8,i32);
b!(mul,mul_i8_u8_i64,i8,u8,i64);
b!(mul,mul_u16,u16,u16,u16);
b!(mul,mul_u16_i16_i32,u16,i16,i32);
b!(mul,mul_u16_i16_i64,u16,i16,i64);
b!(mul,mul_u16_i32,u16,u16,i32);
b!(mul,mul_u16_i32_i32,u16,i32,i32);
b!(mul,mul_u16_i32_i64,u16,i32,i64);
b!(mul,mul_u16_i64,u16,u16,i64);
b!(mul,mul_u16_i8_i32,u16,i8,i32);
b!(mul,mul_u16_i8_i64,u16,i8,i64);
b!(mul,mul_u16_u32,u16,u16,u32);
b!(mul,mul_u16_u32_i64,u16,u32,i64);
b!(mul,mul_u16_u32_u32,u16,u32,u32);
b!(mul,mul_u16_u32_u64,u16,u32,u64);
b!(mul,mul_u16_u64,u16,u16,u64);
b!(mul,mul_u16_u8_i32,u16,u8,i32);
b!(mul,mul_u16_u8_i64,u16,u8,i64);
b!(mul,mul_u16_u8_u16,u16,u8,u16);
b!(mul,mul_u16_u8_u32,u16,u8,u32);
b!(mul,mul_u16_u8_u64,u16,u8,u64);
b!(mul,mul_u32,u32,u32,u32);
b!(mul,mul_u32_i16_i64,u32,i16,i64);
b!(mul,mul_u32_i32_i64,u32,i32,i64);
b!(mul,mul_u32_i64,u32,u32,i64);
b!(mul,mul_u32_i8_i64,u32,i8,i64);
b!(mul,mul_u32_u16_i64,u32,u16,i64);
b!(mul,mul_u32_u16_u32,u32,u16,u32);
b!(mul,mul_u32_u16_u64,u32,u16,u64);
b!(mul,mul_u32_u64,u32,u32,u64);
b!(mul,mul_u32_u8_i64,u32,u8,i64);
b!(mul,mul_u32_u8_u32,u32,u8,u32);
b!(mul,mul_u32_u8_u64,u32,u8,u64);
b!(mul,mul_u64,u64,u64,u64);
b!(mul,mul_u8,u8,u8,u8);
b!(mul,mul_u8_i16,u8,u8,i16);
b!(mul,mul_u8_i16_i16,u8,i16,i16);
b!(mul,mul_u8_i16_i32,u8,i16,i32);
b!(mul,mul_u8_i16_i64,u8,i16,i64);
b!(mul,mul_u8_i32,u8,u8,i32);
b!(mul,mul_u8_i32_i32,u8,i32,i32);
b!(mul,mul_u8_i32_i64,u8,i32,i64);
b!(mul,mul_u8_i64,u8,u8,i64);
b!(mul,mul_u8_i8_i16,u8,i8,i16);
b!(mul,mul_u8_i8_i32,u8,i8,i32);
b!(mul,mul_u8_i8_i64,u8,i8,i64);
b!(mul,mul_u8_u16,u8,u8,u16);
b!(mul,mul_u8_u16_i32,u8,u16,i32);
b!(mul,mul_u8_u16_i64,u8,u16,i64);
b!(mul,mul_u8_u16_u16,u8,u16,u16);
b!(mul,mul_u8_u16_u32,u8,u16,u32);
b!(mul,mul_u8_u16_u64,u8,u16,u64);
b!(mul,mul_u8_u32,u8,u8,u32);
b!(mul,mul_u8_u32_i64,u8,u32,i64);
b!(mul,mul_u8_u32_u32,u8,u32,u32);
b!(mul,mul_u8_u32_u64,u8,u32,u64);
b!(mul,mul_u8_u64,u8,u8,u64);
u!(neg,neg_i16,i16,i16);
u!(neg,neg_i16_i32,i16,i32);
u!(neg,neg_i16_i64,i16,i64);
u!(neg,neg_i16_u16,i16,u16);
u!(neg,neg_i16_u32,i16,u32);
u!(neg,neg_i16_u64,i16,u64);
u!(neg,neg_i32,i32,i32);
u!(neg,neg_i32_i64,i32,i64);
u!(neg,neg_i32_u32,i32,u32);
u!(neg,neg_i32_u64,i32,u64);
u!(neg,neg_i64,i64,i64);
u!(neg,neg_i64_u64,i64,u64);
u!(neg,neg_i8,i8,i8);
u!(neg,neg_i8_i16,i8,i16);
u!(neg,neg_i8_i32,i8,i32);
u!(neg,neg_i8_i64,i8,i64);
u!(neg,neg_i8_u16,i8,u16);
u!(neg,neg_i8_u32,i8,u32);
u!(neg,neg_i8_u64,i8,u64);
u!(neg,neg_i8_u8,i8,u8);
u!(neg,neg_u16,u16,u16);
u!(neg,neg_u16_i32,u16,i32);
u!(neg,neg_u16_i64,u16,i64);
u!(neg,neg_u16_u32,u16,u32);
u!(neg,neg_u16_u64,u16,u64);
u!(neg,neg_u16_u8,u16,u8);
u!(neg,neg_u32,u32,u32);
u!(neg,neg_u32_i64,u32,i64);
u!(neg,neg_u32_u16,u32,u16);
u!(neg,neg_u32_u64,u32,u64);
u!(neg,neg_u32_u8,u32,u8);
u!(neg,neg_u64,u64,u64);
u!(neg,neg_u64_u16,u64,u16);
u!(neg,neg_u64_u32,u64,u32);
u!(neg,neg_u64_u8,u64,u8);
u!(neg,neg_u8,u8,u8);
u!(neg,neg_u8_i16,u8,i16);
u!(neg,neg_u8_i32,u8,i32);
u!(neg,neg_u8_i64,u8,i64);
u!(neg,neg_u8_u16,u8,u16);
u!(neg,neg_u8_u32,u8,u32);
u!(neg,neg_u8_u64,u8,u64);
b!(rem,rem_i16,i16,i16,i16);
b!(rem,rem_i16_i32,i16,i16,i32);
b!(rem,rem_i16_i32_i32,i16,i32,i32);
b!(rem,rem_i16_i32_i64,i16,i32,i64);
b!(rem,rem_i16_i64,i16,i16,i64);
b!(rem,rem_i16_i8_i16,i16,i8,i16);
b!(rem,rem_i16_i8_i32,i16,i8,i32);
b!(rem,rem_i16_i8_i64,i16,i8,i64);
b!(rem,rem_i16_u16_i32,i16,u16,i32);
b!(rem,rem_i16_u16_i64,i16,u16,i64);
b!(rem,rem_i16_u32_i64,i16,u32,i64);
b!(rem,rem_i16_u8_i16,i16,u8,i16);
b!(rem,rem_i16_u8_i32,i16,u8,i32);
b!(rem,rem_i16_u8_i64,i16,u8,i64);
b!(rem,rem_i32,i32,i32,i32);
b!(rem,rem_i32_i16_i32,i32,i16,i32);
b!(rem,rem_i32_i16_i64,i32,i16,i64);
b!(rem,rem_i32_i64,i32,i32,i64);
b!(rem,rem_i32_i8_i32,i32,i8,i32);
b!(rem,rem_i32_i8_i64,i32,i8,i64);
b!(rem,rem_i32_u16_i32,i32,u16,i32);
b!(rem,rem_i32_u16_i64,i32,u16,i64);
b!(rem,rem_i32_u32_i64,i32,u32,i64);
b!(rem,rem_i32_u8_i32,i32,u8,i32);
b!(rem,rem_i32_u8_i64,i32,u8,i64);
b!(rem,rem_i64,i64,i64,i64);
b!(rem,rem_i8,i8,i8,i8);
b!(rem,rem_i8_i16,i8,i8,i16);
b!(rem,rem_i8_i16_i16,i8,i16,i16);
b!(rem,rem_i8_i16_i32,i8,i16,i32);
b!(rem,rem_i8_i16_i64,i8,i16,i64);
b!(rem,rem_i8_i32,i8,i8,i32);
b!(rem,rem_i8_i32_i32,i8,i32,i32);
b!(rem,rem_i8_i32_i64,i8,i32,i64);
b!(rem,rem_i8_i64,i8,i8,i64);
b!(rem,rem_i8_u16_i32,i8,u16,i32);
b!(rem,rem_i8_u16_i64,i8,u16,i64);
b!(rem,rem_i8_u32_i64,i8,u32,i64);
b!(rem,rem_i8_u8_i16,i8,u8,i16);
b!(rem,rem_i8_u8_i32,i8,u8,i32);
b!(rem,rem_i8_u8_i64,i8,u8,i64);
b!(rem,rem_u16,u16,u16,u16);
b!(rem,rem_u16_i16_i32,u16,i16,i32);
b!(rem,rem_u16_i16_i64,u16,i16,i64);
b!(rem,rem_u16_i32,u16,u16,i32);
b!(rem,rem_u16_i32_i32,u16,i32,i32);
b!(rem,rem_u16_i32_i64,u16,i32,i64);
b!(rem,rem_u16_i64,u16,u16,i64);
b!(rem,rem_u16_i8_i32,u16,i8,i32);
b!(rem,rem_u16_i8_i64,u16,i8,i64);
b!(rem,rem_u16_u32,u16,u16,u32);
b!(rem,rem_u16_u32_i64,u16,u32,i64);
b!(rem,rem_u16_u32_u32,u16,u32,u32);
b!(rem,rem_u16_u32_u64,u16,u32,u64);
b!(rem,rem_u16_u64,u16,u16,u64);
b!(rem,rem_u16_u8_i32,u16,u8,i32);
b!(rem,rem_u16_u8_i64,u16,u8,i64);
b!(rem,rem_u16_u8_u16,u16,u8,u16);
b!(rem,rem_u16_u8_u32,u16,u8,u32);
b!(rem,rem_u16_u8_u64,u16,u8,u64);
b!(rem,rem_u32,u32,u32,u32);
b!(rem,rem_u32_i16_i64,u32,i16,i64);
b!(rem,rem_u32_i32_i64,u32,i32,i64);
b!(rem,rem_u32_i64,u32,u32,i64);
b!(rem,rem_u32_i8_i64,u32,i8,i64);
b!(rem,rem_u32_u16_i64,u32,u16,i64);
b!(rem,rem_u32_u16_u32,u32,u16,u32);
b!(rem,rem_u32_u16_u64,u32,u16,u64);
b!(rem,rem_u32_u64,u32,u32,u64);
b!(rem,rem_u32_u8_i64,u32,u8,i64);
b!(rem,rem_u32_u8_u32,u32,u8,u32);
b!(rem,rem_u32_u8_u64,u32,u8,u64);
b!(rem,rem_u64,u64,u64,u64);
b!(rem,rem_u8,u8,u8,u8);
b!(rem,rem_u8_i16,u8,u8,i16);
b!(rem,rem_u8_i16_i16,u8,i16,i16);
b!(rem,rem_u8_i16_i32,u8,i16,i32);
b!(rem,rem_u8_i16_i64,u8,i16,i64);
b!(rem,rem_u8_i32,u8,u8,i32);
b!(rem,rem_u8_i32_i32,u8,i32,i32);
b!(rem,rem_u8_i32_i64,u8,i32,i64);
b!(rem,rem_u8_i64,u8,u8,i64);
b!(rem,rem_u8_i8_i16,u8,i8,i16);
b!(rem,rem_u8_i8_i32,u8,i8,i32);
b!(rem,rem_u8_i8_i64,u8,i8,i64);
b!(rem,rem_u8_u16,u8,u8,u16);
b!(rem,rem_u8_u16_i32,u8,u16,i32);
b!(rem,rem_u8_u16_i64,u8,u16,i64);
b!(rem,rem_u8_u16_u16,u8,u16,u16);
b!(rem,rem_u8_u16_u32,u8,u16,u32);
b!(rem,rem_u8_u16_u64,u8,u16,u64);
b!(rem,rem_u8_u32,u8,u8,u32);
b!(rem,rem_u8_u32_i64,u8,u32,i64);
b!(rem,rem_u8_u32_u32,u8,u32,u32);
b!(rem,rem_u8_u32_u64,u8,u32,u64);
b!(rem,rem_u8_u64,u8,u8,u64);
b!(sub,sub_i16,i16,i16,i16);
b!(sub,sub_i16_i32,i16,i16,i32);
b!(sub,sub_i16_i32_i32,i16,i32,i32);
b!(sub,sub_i16_i32_i64,i16,i32,i64);
b!(sub,sub_i16_i64,i16,i16,i64);
b!(sub,sub_i16_i8_i16,i16,i8,i16);
b!(sub,sub_i16_i8_i32,i16,i8,i32);
b!(sub,sub_i16_i8_i64,i16,i8,i64);
b!(sub,sub_i16_u16_i32,i16,u16,i32);
b!(sub,sub_i16_u16_i64,i16,u16,i64);
b!(sub,sub_i16_u32_i64,i16,u32,i64);
b!(sub,sub_i16_u8_i16,i16,u8,i16);
b!(sub,sub_i16_u8_i32,i16,u8,i32);
b!(sub,sub_i16_u8_i64,i16,u8,i64);
b!(sub,sub_i32,i32,i32,i32);
b!(sub,sub_i32_i16_i32,i32,i16,i32);
b!(sub,sub_i32_i16_i64,i32,i16,i64);
b!(sub,sub_i32_i64,i32,i32,i64);
b!(sub,sub_i32_i8_i32,i32,i8,i32);
b!(sub,sub_i32_i8_i64,i32,i8,i64);
b!(sub,sub_i32_u16_i32,i32,u16,i32);
b!(sub,sub_i32_u16_i64,i32,u16,i64);
b!(sub,sub_i32_u32_i64,i32,u32,i64);
b!(sub,sub_i32_u8_i32,i32,u8,i32);
b!(sub,sub_i32_u8_i64,i32,u8,i64);
b!(sub,sub_i64,i64,i64,i64);
b!(sub,sub_i8,i8,i8,i8);
b!(sub,sub_i8_i16,i8,i8,i16);
b!(sub,sub_i8_i16_i16,i8,i16,i16);
b!(sub,sub_i8_i16_i32,i8,i16,i32);
b!(sub,sub_i8_i16_i64,i8,i16,i64);
b!(sub,sub_i8_i32,i8,i8,i32);
b!(sub,sub_i8_i32_i32,i8,i32,i32);
b!(sub,sub_i8_i32_i64,i8,i32,i64);
b!(sub,sub_i8_i64,i8,i8,i64);
b!(sub,sub_i8_u16_i32,i8,u16,i32);
b!(sub,sub_i8_u16_i64,i8,u16,i64);
b!(sub,sub_i8_u32_i64,i8,u32,i64);
b!(sub,sub_i8_u8_i16,i8,u8,i16);
b!(sub,sub_i8_u8_i32,i8,u8,i32);
b!(sub,sub_i8_u8_i64,i8,u8,i64);
b!(sub,sub_u16,u16,u16,u16);
b!(sub,sub_u16_i16_i32,u16,i16,i32);
b!(sub,sub_u16_i16_i64,u16,i16,i64);
b!(sub,sub_u16_i32,u16,u16,i32);
b!(sub,sub_u16_i32_i32,u16,i32,i32);
b!(sub,sub_u16_i32_i64,u16,i32,i64);
b!(sub,sub_u16_i64,u16,u16,i64);
b!(sub,sub_u16_i8_i32,u16,i8,i32);
b!(sub,sub_u16_i8_i64,u16,i8,i64);
b!(sub,sub_u16_u32,u16,u16,u32);
b!(sub,sub_u16_u32_i64,u16,u32,i64);
b!(sub,sub_u16_u32_u32,u16,u32,u32);
b!(sub,sub_u16_u32_u64,u16,u32,u64);
b!(sub,sub_u16_u64,u16,u16,u64);
b!(sub,sub_u16_u8_i32,u16,u8,i32);
b!(sub,sub_u16_u8_i64,u16,u8,i64);
b!(sub,sub_u16_u8_u16,u16,u8,u16);
b!(sub,sub_u16_u8_u32,u16,u8,u32);
b!(sub,sub_u16_u8_u64,u16,u8,u64);
b!(sub,sub_u32,u32,u32,u32);
b!(sub,sub_u32_i16_i64,u32,i16,i64);
b!(sub,sub_u32_i32_i64,u32,i32,i64);
b!(sub,sub_u32_i64,u32,u32,i64);
b!(sub,sub_u32_i8_i64,u32,i8,i64);
b!(sub,sub_u32_u16_i64,u32,u16,i64);
b!(sub,sub_u32_u16_u32,u32,u16,u32);
b!(sub,sub_u32_u16_u64,u32,u16,u64);
b!(sub,sub_u32_u64,u32,u32,u64);
b!(sub,sub_u32_u8_i64,u32,u8,i64);
b!(sub,sub_u32_u8_u32,u32,u8,u32);
b!(sub,sub_u32_u8_u64,u32,u8,u64);
b!(sub,sub_u64,u64,u64,u64);
b!(sub,sub_u8,u8,u8,u8);
b!(sub,sub_u8_i16,u8,u8,i16);
b!(sub,sub_u8_i16_i16,u8,i16,i16);
b!(sub,sub_u8_i16_i32,u8,i16,i32);
b!(sub,sub_u8_i16_i64,u8,i16,i64);
b!(sub,sub_u8_i32,u8,u8,i32);
b!(sub,sub_u8_i32_i32,u8,i32,i32);
b!(sub,sub_u8_i32_i64,u8,i32,i64);
b!(sub,sub_u8_i64,u8,u8,i64);
b!(sub,sub_u8_i8_i16,u8,i8,i16);
b!(sub,sub_u8_i8_i32,u8,i8,i32);
b!(sub,sub_u8_i8_i64,u8,i8,i64);
b!(sub,sub_u8_u16,u8,u8,u16);
b!(sub,sub_u8_u16_i32,u8,u16,i32);
b!(sub,sub_u8_u16_i64,u8,u16,i64);
b!(sub,sub_u8_u16_u16,u8,u16,u16);
b!(sub,sub_u8_u16_u32,u8,u16,u32);
b!(sub,sub_u8_u16_u64,u8,u16,u64);
b!(sub,sub_u8_u32,u8,u8,u32);
b!(sub,sub_u8_u32_i64,u8,u32,i64);
b!(sub,sub_u8_u32_u32,u8,u32,u32);
b!(sub,sub_u8_u32_u64,u8,u32,u64);
b!(sub,sub_u8_u64,u8,u8,u64);
}
