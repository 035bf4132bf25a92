#include "k.h"
#include <ualgo.h>
#include <ualgobase.h>
using namespace ustl;
#define W extern "C"
#define TYPED(t) \
W t* h_copy_##t (const t* f, const t* l, t* r)		{ return copy (f, l, r); } \
W t* h_copy_n_##t (const t* f, size_t n, t* r)		{ return copy_n (f, n, r); } \
W t* h_copy_backward_##t (const t* f, const t* l, t* r)	{ return copy_backward (f, l, r); } \
W void h_fill_##t (t* f, t* l, const t& v)		{ fill (f, l, v); } \
W t* h_fill_n_##t (t* f, size_t n, const t& v)		{ return fill_n (f, n, v); } \
W t* h_rotate_##t (t* f, t* m, t* l)			{ return rotate (f, m, l); } \
W t* h_mcopy_##t (t* f, t* l, t* r)			{ return copy (f, l, r); } \
W t* h_mcopy_backward_##t (t* f, t* l, t* r)		{ return copy_backward (f, l, r); }
TYPED(uint8_t)
TYPED(uint16_t)
TYPED(uint32_t)
TYPED(int8_t)
TYPED(int16_t)
TYPED(int32_t)
TYPED(char)
TYPED(K)
W void* h_copy_void (const void* f, const void* l, void* r)	{ return copy (f, l, r); }
W void* h_copy_n_void (const void* f, size_t n, void* r)	{ return copy_n (f, n, r); }
W void* h_copy_backward_void (const void* f, const void* l, void* r) { return copy_backward (f, l, r); }
W void h_fill_void (void* f, void* l, const uint8_t& v)		{ fill (f, l, v); }
W void h_fill_voidc (void* f, void* l, const char& v)		{ fill (f, l, v); }
W void* h_fill_n_void (void* f, size_t n, const uint8_t& v)	{ return fill_n (f, n, v); }
W void* h_fill_n_voidc (void* f, size_t n, const char& v)	{ return fill_n (f, n, v); }
