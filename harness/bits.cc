#include "k.h"
// every bitset size under contract
#define BS(N) \
typedef bitset<N> B##N; typedef const B##N& C##N; \
H(void) b_ctor_##N (void* m, uint32_t v) { new (m) B##N (v); } \
H(void) b_ctor0_##N (void* m) { new (m) B##N; } \
H(void) b_ctor_s_##N (B##N* m, const string& s) { B##N x (s); *m = x; } \
H(void) b_copy_##N (void* m, C##N v) { new (m) B##N (v); } \
H(void) b_assign_##N (B##N& m, C##N v) { m = v; } \
H(void) b_flip1_##N (B##N& m, size_t n) { m.flip (n); } \
H(void) b_set1_##N (B##N& m, size_t n) { m.set (n); } \
H(void) b_setv_##N (B##N& m, size_t n, bool v) { m.set (n, v); } \
H(void) b_reset1_##N (B##N& m, size_t n) { m.reset (n); } \
H(bool) b_test_##N (C##N m, size_t n) { return m.test (n); } \
H(bool) b_idx_##N (C##N m, size_t n) { return m[n]; } \
H(uint32_t) b_at_##N (C##N m, size_t n) { return m.at (n); } \
H(void) b_setr_##N (B##N& m, size_t f, size_t l, uint32_t v) { m.set (f, l, v); } \
H(uint32_t) b_atr_##N (C##N m, size_t f, size_t l) { return m.at (f, l); } \
H(void) b_reset_##N (B##N& m) { m.reset(); } \
H(void) b_clear_##N (B##N& m) { m.clear(); } \
H(void) b_set_##N (B##N& m) { m.set(); } \
H(void) b_flip_##N (B##N& m) { m.flip(); } \
H(void) b_not_##N (B##N* m, C##N a) { *m = ~a; } \
H(void) b_and_##N (B##N* m, C##N a, C##N b) { *m = a & b; } \
H(void) b_or_##N (B##N* m, C##N a, C##N b) { *m = a | b; } \
H(void) b_xor_##N (B##N* m, C##N a, C##N b) { *m = a ^ b; } \
H(const void*) b_andeq_##N (B##N& a, C##N b) { return &(a &= b); } \
H(const void*) b_oreq_##N (B##N& a, C##N b) { return &(a |= b); } \
H(const void*) b_xoreq_##N (B##N& a, C##N b) { return &(a ^= b); } \
H(uint32_t) b_value_##N (C##N m) { return m.to_value(); } \
H(size_t) b_size_##N (C##N m) { return m.size() + (m.capacity() % 32 || m.capacity() < N || m.capacity() >= N + 32 ? 1000 : 0) + (m.stream_size() * 8 == m.capacity() ? 0 : 1000) + (size_t(m.end() - m.begin()) * 32 == m.capacity() ? 0 : 1000); } \
H(bool) b_any_##N (C##N m) { return m.any(); } \
H(bool) b_none_##N (C##N m) { return m.none(); } \
H(size_t) b_count_##N (C##N m) { return m.count(); } \
H(bool) b_eq_##N (C##N a, C##N b) { return a == b; } \
H(bool) b_ne_##N (C##N a, C##N b) { return a != b; } \
H(void) b_swap_##N (B##N& a, B##N& b) { swap (a, b); } \
H(void) b_str_##N (C##N m, string& s) { string r (m.to_string()); s.swap (r); } \
H(void) b_write_##N (C##N m, ostream& s) { s << m; } \
H(void) b_read_##N (B##N& m, istream& s) { s >> m; }
BS(1) BS(30) BS(32) BS(33) BS(63) BS(64) BS(70) BS(85) BS(128)
H(void) b_to_bits (const uint32_t* v, size_t n, string& s) { convert_to_bitstring (v, n, s); }
H(void) b_from_bits (const string& s, uint32_t* v, size_t n) { convert_from_bitstring (s, v, n); }
