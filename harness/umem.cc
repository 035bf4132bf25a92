// raw storage algorithms over a plain element (K) and one with a lifetime (Q)
#include "q.h"
#define UM(x,E) \
H(void) x##_cat (E* p) { construct_at (p); } \
H(void) x##_catv (E* p, const E& v) { construct_at (p, v); } \
H(void) x##_catm (E* p, E& v) { construct_at (p, static_cast<E&&>(v)); } \
H(void) x##_cone (E* p) { construct (p); } \
H(void) x##_dat (E* p) { destroy_at (p); } \
H(void) x##_done (E* p) { destroy (p); } \
H(void) x##_dc (E* f, E* l) { uninitialized_default_construct (f, l); } \
H(void) x##_dcn (E* f, size_t n) { uninitialized_default_construct_n (f, n); } \
H(void) x##_con (E* f, E* l) { construct (f, l); } \
H(void) x##_vc (E* f, E* l) { uninitialized_value_construct (f, l); } \
H(void) x##_vcn (E* f, size_t n) { uninitialized_value_construct_n (f, n); } \
H(void) x##_destroy (E* f, E* l) { destroy (f, l); } \
H(void) x##_destroy_n (E* f, size_t n) { destroy_n (f, n); } \
H(E*) x##_copy (const E* f, const E* l, E* r) { return uninitialized_copy (f, l, r); } \
H(E*) x##_copy_n (const E* f, size_t n, E* r) { return uninitialized_copy_n (f, n, r); } \
H(void) x##_fill (E* f, E* l, const E& v) { uninitialized_fill (f, l, v); } \
H(E*) x##_fill_n (E* f, size_t n, const E& v) { return uninitialized_fill_n (f, n, v); } \
H(E*) x##_move (E* f, E* l, E* r) { return uninitialized_move (f, l, r); } \
H(E*) x##_move_n (E* f, size_t n, E* r) { return uninitialized_move_n (f, n, r); } \
H(ptrdiff_t) x##_tmp (void* p, size_t n, E** q) { auto r = make_temporary_buffer (p, n, (const E*) nullptr); *q = r.first; return r.second; }
UM(k,K) UM(q,Q)
