#include "k.h"
// every tuple type under contract: T, N, a second element type for mixed operations
#define T_BASIC(n,T,N) \
typedef tuple<N,T> t_##n; typedef const t_##n& c_##n; \
H(void) t_add_##n (t_##n* r, c_##n a, c_##n b) { *r = a + b; } \
H(void) t_sub_##n (t_##n* r, c_##n a, c_##n b) { *r = a - b; } \
H(void) t_mul_##n (t_##n* r, c_##n a, c_##n b) { *r = a * b; } \
H(void) t_div_##n (t_##n* r, c_##n a, c_##n b) { *r = a / b; } \
H(void*) t_addeq_##n (t_##n& a, c_##n b) { return &(a += b); } \
H(void*) t_subeq_##n (t_##n& a, c_##n b) { return &(a -= b); } \
H(void*) t_muleq_##n (t_##n& a, c_##n b) { return &(a *= b); } \
H(void*) t_diveq_##n (t_##n& a, c_##n b) { return &(a /= b); } \
H(void) t_adds_##n (t_##n* r, c_##n a, const T& b) { *r = a + b; } \
H(void) t_subs_##n (t_##n* r, c_##n a, const T& b) { *r = a - b; } \
H(void) t_muls_##n (t_##n* r, c_##n a, const T& b) { *r = a * b; } \
H(void) t_divs_##n (t_##n* r, c_##n a, const T& b) { *r = a / b; } \
H(void*) t_addseq_##n (t_##n& a, const T& b) { return &(a += b); } \
H(void*) t_subseq_##n (t_##n& a, const T& b) { return &(a -= b); } \
H(void*) t_mulseq_##n (t_##n& a, const T& b) { return &(a *= b); } \
H(void*) t_divseq_##n (t_##n& a, const T& b) { return &(a /= b); } \
H(bool) t_eq_##n (c_##n a, c_##n b) { return a == b; } \
H(bool) t_lt_##n (c_##n a, c_##n b) { return a < b; } \
H(void) t_swap_##n (t_##n& a, t_##n& b) { a.swap (b); } \
H(void) t_swapf_##n (t_##n& a, t_##n& b) { swap (a, b); } \
H(void) t_zero_##n (t_##n* r) { t_##n x; *r = x; } \
H(void) t_fill_##n (t_##n* r, const T& v) { t_##n x (v); *r = x; } \
H(void) t_ptr_##n (t_##n* r, const T* v) { t_##n x (v); *r = x; } \
H(void) t_copy_##n (t_##n* r, c_##n v) { t_##n x (v); *r = x; } \
H(void*) t_assign_##n (t_##n& r, c_##n v) { return &(r = v); } \
H(void) t_at_##n (T* o, c_##n a, size_t i) { *o = a.at(i); } \
H(void) t_idx_##n (T* o, c_##n a, size_t i) { *o = a[i]; } \
H(void) t_set_##n (t_##n& a, size_t i, const T& v) { a[i] = v; } \
H(void) t_setat_##n (t_##n& a, size_t i, const T& v) { a.at(i) = v; } \
H(size_t) t_size_##n (c_##n a) { return a.size() + (a.empty() ? 1000 : 0) + (a.max_size() == a.size() ? 0 : 1000) + (size_t(a.end() - a.begin()) == a.size() ? 0 : 1000); } \
H(void) t_il0_##n (t_##n* r) { t_##n x {}; *r = x; } \
H(void) t_il1_##n (t_##n* r, const T* v) { t_##n x {v[0]}; *r = x; } \
H(void) t_il2_##n (t_##n* r, const T* v) { *r = {v[0], v[1]}; } \
H(void) t_il9_##n (t_##n* r, const T* v) { r->assign ({v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]}); } \
H(void) t_v2_##n (t_##n* r, const T& a, const T& b) { t_##n x (a, b); *r = x; } \
H(void*) t_addil_##n (t_##n& a, const T* v) { return &(a += {v[0], v[1]}); } \
H(void*) t_subil_##n (t_##n& a, const T* v) { return &(a -= {v[0], v[1]}); } \
H(void*) t_mulil_##n (t_##n& a, const T* v) { return &(a *= {v[0], v[1]}); } \
H(void*) t_divil_##n (t_##n& a, const T* v) { return &(a /= {v[0], v[1]}); } \
H(void*) t_addil9_##n (t_##n& a, const T* v) { return &(a += {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]}); }
#define T_34(n,T,N) \
H(void) t_v3_##n (t_##n* r, const T& a, const T& b, const T& d) { t_##n x (a, b, d); *r = x; } \
H(void) t_v4_##n (t_##n* r, const T& a, const T& b, const T& d, const T& e) { t_##n x (a, b, d, e); *r = x; }
T_BASIC(u3,uint32_t,3) T_BASIC(s5,int16_t,5) T_BASIC(b3,uint8_t,3) T_BASIC(q3,uint64_t,3)
T_BASIC(f4,float,4) T_BASIC(f2,float,2) T_BASIC(d2,double,2) T_BASIC(f3,float,3)
T_BASIC(s32x4,int32_t,4) T_BASIC(u32x4,uint32_t,4) T_BASIC(s16x4,int16_t,4) T_BASIC(u16x4,uint16_t,4)
T_BASIC(s32x2,int32_t,2) T_BASIC(u32x2,uint32_t,2) T_BASIC(s8x8,int8_t,8) T_BASIC(u8x8,uint8_t,8) T_BASIC(s16x2,int16_t,2)
T_34(s5,int16_t,5) T_34(f4,float,4) T_34(s32x4,int32_t,4) T_34(u16x4,uint16_t,4) T_34(u8x8,uint8_t,8) T_34(u32x4,uint32_t,4)
// mixed element types
#define T_MIX(n,A,B,N) \
H(void) t_madd_##n (tuple<N,A>* r, const tuple<N,A>& a, const tuple<N,B>& b) { *r = a + b; } \
H(void) t_msub_##n (tuple<N,A>* r, const tuple<N,A>& a, const tuple<N,B>& b) { *r = a - b; } \
H(void) t_mmul_##n (tuple<N,A>* r, const tuple<N,A>& a, const tuple<N,B>& b) { *r = a * b; } \
H(void*) t_maddeq_##n (tuple<N,A>& a, const tuple<N,B>& b) { return &(a += b); } \
H(void*) t_msubeq_##n (tuple<N,A>& a, const tuple<N,B>& b) { return &(a -= b); } \
H(void*) t_mmuleq_##n (tuple<N,A>& a, const tuple<N,B>& b) { return &(a *= b); } \
H(bool) t_meq_##n (const tuple<N,A>& a, const tuple<N,B>& b) { return a == b; } \
H(bool) t_mlt_##n (const tuple<N,A>& a, const tuple<N,B>& b) { return a < b; } \
H(void) t_conv_##n (tuple<N,A>* r, const tuple<N,B>& b) { tuple<N,A> x (b); *r = x; } \
H(void*) t_convas_##n (tuple<N,A>& r, const tuple<N,B>& b) { return &(r = b); }
T_MIX(u8u32,uint8_t,uint32_t,3) T_MIX(u32u8,uint32_t,uint8_t,3) T_MIX(s32u32,int32_t,uint32_t,4) T_MIX(u64u16,uint64_t,uint16_t,2)
// arrays
#define A_BASIC(n,T,N) \
typedef array<T,N> a_##n; typedef const a_##n& ca_##n; \
H(void) a_add_##n (a_##n* r, ca_##n a, ca_##n b) { *r = a + b; } \
H(void) a_sub_##n (a_##n* r, ca_##n a, ca_##n b) { *r = a - b; } \
H(void) a_mul_##n (a_##n* r, ca_##n a, ca_##n b) { *r = a * b; } \
H(void) a_div_##n (a_##n* r, ca_##n a, ca_##n b) { *r = a / b; } \
H(const void*) a_addeq_##n (a_##n& a, ca_##n b) { return &(a += b); } \
H(const void*) a_subeq_##n (a_##n& a, ca_##n b) { return &(a -= b); } \
H(const void*) a_muleq_##n (a_##n& a, ca_##n b) { return &(a *= b); } \
H(const void*) a_diveq_##n (a_##n& a, ca_##n b) { return &(a /= b); } \
H(void) a_adds_##n (a_##n* r, ca_##n a, const T& b) { *r = a + b; } \
H(void) a_subs_##n (a_##n* r, ca_##n a, const T& b) { *r = a - b; } \
H(void) a_muls_##n (a_##n* r, ca_##n a, const T& b) { *r = a * b; } \
H(void) a_divs_##n (a_##n* r, ca_##n a, const T& b) { *r = a / b; } \
H(const void*) a_addseq_##n (a_##n& a, const T& b) { return &(a += b); } \
H(const void*) a_subseq_##n (a_##n& a, const T& b) { return &(a -= b); } \
H(const void*) a_mulseq_##n (a_##n& a, const T& b) { return &(a *= b); } \
H(const void*) a_divseq_##n (a_##n& a, const T& b) { return &(a /= b); } \
H(bool) a_eq_##n (ca_##n a, ca_##n b) { return a == b; } \
H(bool) a_lt_##n (ca_##n a, ca_##n b) { return a < b; } \
H(void) a_swap_##n (a_##n& a, a_##n& b) { a.swap (b); } \
H(void) a_fillm_##n (a_##n& a, const T& v) { a.fill (v); } \
H(void) a_at_##n (T* o, ca_##n a, size_t i) { *o = a.at(i); } \
H(void) a_idx_##n (T* o, ca_##n a, size_t i) { *o = a[i]; } \
H(void) a_set_##n (a_##n& a, size_t i, const T& v) { a[i] = v; } \
H(void) a_setat_##n (a_##n& a, size_t i, const T& v) { a.at(i) = v; } \
H(size_t) a_size_##n (ca_##n a) { return a.size() + (a.empty() ? 1000 : 0) + (a.max_size() == a.size() ? 0 : 1000) + (size_t(a.end() - a.begin()) == a.size() ? 0 : 1000); } \
H(void) a_addilr_##n (a_##n* r, ca_##n a, const T* v) { *r = a + typename a_##n::initlist_t {v[0], v[1]}; } \
H(void) a_subilr_##n (a_##n* r, ca_##n a, const T* v) { *r = a - typename a_##n::initlist_t {v[0], v[1]}; } \
H(void) a_mulilr_##n (a_##n* r, ca_##n a, const T* v) { *r = a * typename a_##n::initlist_t {v[0], v[1]}; } \
H(void) a_divilr_##n (a_##n* r, ca_##n a, const T* v) { *r = a / typename a_##n::initlist_t {v[0], v[1]}; } \
H(const void*) a_addil_##n (a_##n& a, const T* v) { return &(a += {v[0], v[1]}); } \
H(const void*) a_subil_##n (a_##n& a, const T* v) { return &(a -= {v[0], v[1]}); } \
H(const void*) a_mulil_##n (a_##n& a, const T* v) { return &(a *= {v[0], v[1]}); } \
H(const void*) a_divil_##n (a_##n& a, const T* v) { return &(a /= {v[0], v[1]}); } \
H(const void*) a_addil9_##n (a_##n& a, const T* v) { return &(a += {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]}); }
A_BASIC(u3,uint32_t,3) A_BASIC(s5,int16_t,5) A_BASIC(q2,uint64_t,2) A_BASIC(f3,float,3) A_BASIC(b8,uint8_t,8)
#define A_MIX(n,A,B,N) \
H(void) a_madd_##n (array<A,N>* r, const array<A,N>& a, const array<B,N>& b) { *r = a + b; } \
H(void) a_msub_##n (array<A,N>* r, const array<A,N>& a, const array<B,N>& b) { *r = a - b; } \
H(void) a_mmul_##n (array<A,N>* r, const array<A,N>& a, const array<B,N>& b) { *r = a * b; } \
H(const void*) a_maddeq_##n (array<A,N>& a, const array<B,N>& b) { return &(a += b); } \
H(const void*) a_msubeq_##n (array<A,N>& a, const array<B,N>& b) { return &(a -= b); } \
H(const void*) a_mmuleq_##n (array<A,N>& a, const array<B,N>& b) { return &(a *= b); } \
H(bool) a_meq_##n (const array<A,N>& a, const array<B,N>& b) { return a == b; } \
H(bool) a_mlt_##n (const array<A,N>& a, const array<B,N>& b) { return a < b; }
A_MIX(u8u32,uint8_t,uint32_t,3) A_MIX(u32u8,uint32_t,uint8_t,3) A_MIX(u64u16,uint64_t,uint16_t,2)
// matrices
#define X_BASIC(n,T,X,Y) \
typedef matrix<X,Y,T> x_##n; typedef const x_##n& cx_##n; \
H(void) x_get_##n (T* o, cx_##n m, size_t r, size_t q) { *o = m[r][q]; } \
H(void) x_set_##n (x_##n& m, size_t r, size_t q, const T& v) { m[r][q] = v; } \
H(void) x_row_##n (tuple<X,T>* r, cx_##n m, size_t i) { *r = m.row (i); } \
H(void) x_col_##n (tuple<Y,T>* r, cx_##n m, size_t i) { *r = m.column (i); } \
H(void) x_assign_##n (x_##n& r, cx_##n m) { r = m; } \
H(void) x_copy_##n (x_##n& r, cx_##n m) { x_##n x (m); r = x; } \
H(void) x_zero_##n (x_##n& r) { x_##n x; r = x; } \
H(void) x_adds_##n (x_##n& r, cx_##n m, const T& v) { r = m + v; } \
H(void) x_subs_##n (x_##n& r, cx_##n m, const T& v) { r = m - v; } \
H(void) x_muls_##n (x_##n& r, cx_##n m, const T& v) { r = m * v; } \
H(void) x_divs_##n (x_##n& r, cx_##n m, const T& v) { r = m / v; } \
H(void) x_tmul_##n (tuple<X,T>* r, const tuple<Y,T>& t, cx_##n m) { *r = t * m; } \
H(void) x_mmul_##n (matrix<Y,Y,T>* r, cx_##n a, const matrix<Y,X,T>& b) { *r = a * b; } \
H(size_t) x_dim_##n (cx_##n m) { return m.columns() * 16 + m.rows(); }
#define X_SQ(n) \
H(void) x_ident_##n (x_##n& m) { load_identity (m); } \
H(void) x_trans_##n (x_##n& m) { transpose (m); }
X_BASIC(u3x2,uint32_t,3,2) X_BASIC(s16x2x3,int16_t,2,3) X_BASIC(u3,uint32_t,3,3) X_BASIC(i4,int32_t,4,4) X_BASIC(f4,float,4,4) X_BASIC(f2,float,2,2)
X_SQ(u3) X_SQ(i4) X_SQ(f4) X_SQ(f2)
// packed operations
#define S_2(n,op) H(void) s_##op##_##n (c_##n a, t_##n& b) { simd::p##op (a, b); } \
H(void) s3_##op##_##n (c_##n a, c_##n b, t_##n& r) { simd::p##op (a, b, r); }
#define S_COMMON(n,T) S_2(n,add) S_2(n,sub) S_2(n,mul) S_2(n,div) S_2(n,min) S_2(n,max) S_2(n,avg) \
H(void) s_assign_##n (c_##n a, t_##n& r) { simd::passign (a, r); } \
H(void) s_iassign_##n (const T* a, t_##n& r) { simd::ipassign (a, r); }
#define S_INT(n,T) S_COMMON(n,T) S_2(n,and) S_2(n,or) S_2(n,xor) S_2(n,shl) S_2(n,shr) S_2(n,subs) \
H(void) s_adds_##n (c_##n a, t_##n& b) { simd::packop (a, b, simd::fpadds<T>()); } \
H(void) s3_adds_##n (c_##n a, c_##n b, t_##n& r) { simd::padds (a, b, r); }
S_INT(u3,uint32_t) S_INT(s5,int16_t) S_INT(b3,uint8_t) S_INT(q3,uint64_t) S_INT(s32x4,int32_t) S_INT(u32x4,uint32_t) S_INT(s16x4,int16_t) S_INT(u16x4,uint16_t)
S_INT(s16x2,int16_t) S_INT(s32x2,int32_t) S_INT(u32x2,uint32_t) S_INT(s8x8,int8_t) S_INT(u8x8,uint8_t)
S_COMMON(f4,float) S_COMMON(f2,float) S_COMMON(f3,float) S_COMMON(d2,double)
H(void) s_and_f4 (c_f4 a, t_f4& b) { simd::packop (a, b, bitwise_and<float>()); }
H(void) s_or_f4 (c_f4 a, t_f4& b) { simd::packop (a, b, bitwise_or<float>()); }
H(void) s_xor_f4 (c_f4 a, t_f4& b) { simd::packop (a, b, bitwise_xor<float>()); }
