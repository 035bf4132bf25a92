#include "k.h"
extern "C" {
int k_add (int a, int b) noexcept __attribute__((const));
int k_mul (int a, int b) noexcept __attribute__((const));
int k_sub (int a, int b) noexcept __attribute__((const));
}
inline K operator+ (const K& a, const K& b) { return K{k_add (a.v, b.v)}; }
inline K operator* (const K& a, const K& b) { return K{k_mul (a.v, b.v)}; }
inline K operator- (const K& a, const K& b) { return K{k_sub (a.v, b.v)}; }
inline K& operator+= (K& a, const K& b) { a.v = k_add (a.v, b.v); return a; }
struct Add { K operator() (const K& a, const K& b) const { return K{k_fn2 (a.v, b.v)}; } };
struct Mul { K operator() (const K& a, const K& b) const { return K{k_mul (a.v, b.v)}; } };
typedef const K* CK;
// folds
H(int) h_accumulate (CK f, CK l, int i) { return accumulate (f, l, K{i}).v; }
H(int) h_accumulate_op (CK f, CK l, int i) { return accumulate (f, l, K{i}, Add()).v; }
H(int) h_inner (CK f, CK l, CK g, int i) { return inner_product (f, l, g, K{i}).v; }
H(int) h_inner_op (CK f, CK l, CK g, int i) { return inner_product (f, l, g, K{i}, Add(), Mul()).v; }
H(K*) h_partial (CK f, CK l, K* r) { return partial_sum (f, l, r); }
H(K*) h_partial_op (CK f, CK l, K* r) { return partial_sum (f, l, r, Add()); }
H(K*) h_adjdiff (CK f, CK l, K* r) { return adjacent_difference (f, l, r); }
H(K*) h_adjdiff_op (CK f, CK l, K* r) { return adjacent_difference (f, l, r, Add()); }
H(void) h_iota (uint32_t* f, uint32_t* l, uint32_t v) { iota (f, l, v); }
H(uint32_t) h_accumulate_u32 (const uint32_t* f, const uint32_t* l, uint32_t i) { return accumulate (f, l, i); }
H(K*) h_partial_ip (K* f, K* l) { return partial_sum (f, l, f); }
// integer utilities
#define U(T,n) \
H(T) min_##n (T a, T b) { return min (a, b); } \
H(T) max_##n (T a, T b) { return max (a, b); } \
H(T) absv_##n (T a) { return absv (a); } \
H(T) sign_##n (T a) { return sign (a); }
U(int8_t,s8) U(int16_t,s16) U(int32_t,s32) U(int64_t,s64) U(uint8_t,u8) U(uint16_t,u16) U(uint32_t,u32) U(uint64_t,u64)
H(bool) isneg_s32 (int32_t v) { return is_negative (v); }
H(bool) isneg_u32 (uint32_t v) { return is_negative (v); }
H(int) min_k (CK a, CK b) { return min (*a, *b).v; }
H(int) max_k (CK a, CK b) { return max (*a, *b).v; }
#define A(T,n) \
H(T) aligndown_##n (T v, size_t g) { return AlignDown (v, g); } \
H(T) align_##n (T v, size_t g) { return Align (v, g); } \
H(T) align0_##n (T v) { return Align (v); } \
H(T) aligndown0_##n (T v) { return AlignDown (v); }
A(uint32_t,u32) A(uint64_t,u64)
#define D(T,n) H(T) divru_##n (T a, T b) { return DivRU (a, b); }
D(int32_t,s32) D(uint32_t,u32) D(int64_t,s64) D(uint64_t,u64)
H(uint16_t) bswap_u16 (uint16_t v) { return bswap (v); }
H(uint32_t) bswap_u32 (uint32_t v) { return bswap (v); }
H(uint64_t) bswap_u64 (uint64_t v) { return bswap (v); }
H(int16_t) bswap_s16 (int16_t v) { return bswap (v); }
H(int32_t) bswap_s32 (int32_t v) { return bswap (v); }
H(int64_t) bswap_s64 (int64_t v) { return bswap (v); }
H(uint8_t) bswap_u8 (uint8_t v) { return bswap (v); }
#define E(T,n) \
H(T) le2n_##n (T v) { return le_to_native (v); } \
H(T) n2le_##n (T v) { return native_to_le (v); } \
H(T) be2n_##n (T v) { return be_to_native (v); } \
H(T) n2be_##n (T v) { return native_to_be (v); }
E(uint16_t,u16) E(uint32_t,u32) E(uint64_t,u64)
H(uint32_t) pack_8_32 (uint8_t v) { uint32_t b; pack_type (v, b); return b; }
H(uint64_t) pack_8_64 (uint8_t v) { uint64_t b; pack_type (v, b); return b; }
H(uint64_t) pack_16_64 (uint16_t v) { uint64_t b; pack_type (v, b); return b; }
H(uint64_t) pack_32_64 (uint32_t v) { uint64_t b; pack_type (v, b); return b; }
H(uint16_t) pack_8_16 (uint8_t v) { uint16_t b; pack_type (v, b); return b; }
H(uint32_t) pack_16_32 (uint16_t v) { uint32_t b; pack_type (v, b); return b; }
H(size_t) firstbit_u32 (uint32_t v, size_t n) { return FirstBit (v, n); }
H(size_t) firstbit_u64 (uint64_t v, size_t n) { return FirstBit (v, n); }
H(uint32_t) nextpow2 (uint32_t v) { return NextPow2 (v); }
H(uint32_t) rol_u32 (uint32_t v, size_t n) { return Rol (v, n); }
H(uint64_t) rol_u64 (uint64_t v, size_t n) { return Rol (v, n); }
H(uint32_t) ror_u32 (uint32_t v, size_t n) { return Ror (v, n); }
H(uint64_t) ror_u64 (uint64_t v, size_t n) { return Ror (v, n); }
H(uint16_t) rol_u16 (uint16_t v, size_t n) { return Rol (v, n); }
H(uint16_t) ror_u16 (uint16_t v, size_t n) { return Ror (v, n); }
H(bool) testandset (int* p) { return TestAndSet (p); }
H(uint32_t) gcd_u32 (uint32_t a, uint32_t b) { return gcd (a, b); }
H(int32_t) gcd_s32 (int32_t a, int32_t b) { return gcd (a, b); }
H(uint64_t) gcd_u64 (uint64_t a, uint64_t b) { return gcd (a, b); }
H(uint32_t) lcm_u32 (uint32_t a, uint32_t b) { return lcm (a, b); }
// the free monoid on one generator, written additively: 1 is its identity, multiplication is addition
struct Exp { uint64_t v; Exp (void) : v (0) {} Exp (int) : v (0) {} explicit Exp (uint64_t q) : v (q) {} };
inline Exp& operator*= (Exp& a, const Exp& b) { a.v += b.v; return a; }
struct ExpMul { Exp operator() (const Exp& a, const Exp& b) const { return Exp (a.v + b.v); } };
H(uint64_t) power_exp (unsigned n) { return power (Exp (uint64_t(1)), n).v; }
H(uint64_t) power_exp_op (unsigned n) { return power (Exp (uint64_t(1)), n, ExpMul()).v; }
H(uint32_t) power_u32 (uint32_t x, unsigned n) { return power (x, n); }
H(uint64_t) power_u64 (uint64_t x, unsigned n) { return power (x, n); }
H(uint8_t*) velem (uint8_t* p, size_t i) { return &VectorElement (*reinterpret_cast<uint8_t(*)[7]>(p), i); }
