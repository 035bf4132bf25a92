#include "k.h"
typedef const K* CK;
#define IT(x,C,D) \
typedef C<D> I##x; \
H(const K*) x##_deref (D p) { I##x i (p); auto&& r = *i; return &r; } \
H(const K*) x##_arrow (D p) { I##x i (p); return i.operator->(); } \
H(const K*) x##_index (D p, size_t n) { I##x i (p); auto&& r = i[n]; return &r; } \
H(D) x##_base (D p) { I##x i (p); return i.base(); } \
H(D) x##_inc (D p) { I##x i (p); I##x& r = ++i; return &r == &i ? i.base() : nullptr; } \
H(D) x##_dec (D p) { I##x i (p); I##x& r = --i; return &r == &i ? i.base() : nullptr; } \
H(D) x##_pinc (D p, D& o) { I##x i (p); I##x r = i++; o = r.base(); return i.base(); } \
H(D) x##_pdec (D p, D& o) { I##x i (p); I##x r = i--; o = r.base(); return i.base(); } \
H(D) x##_addeq (D p, size_t n) { I##x i (p); I##x& r = (i += n); return &r == &i ? i.base() : nullptr; } \
H(D) x##_subeq (D p, size_t n) { I##x i (p); I##x& r = (i -= n); return &r == &i ? i.base() : nullptr; } \
H(D) x##_add (D p, size_t n) { const I##x i (p); return (i + n).base(); } \
H(D) x##_sub (D p, size_t n) { const I##x i (p); return (i - n).base(); } \
H(ptrdiff_t) x##_diff (D p, D q) { I##x i (p), j (q); return i - j; } \
H(bool) x##_eq (D p, D q) { I##x i (p), j (q); return i == j; } \
H(bool) x##_ne (D p, D q) { I##x i (p), j (q); return i != j; } \
H(bool) x##_lt (D p, D q) { I##x i (p), j (q); return i < j; } \
H(D) x##_copy (D p) { I##x i (p), j (i); I##x k; k = j; return k.base(); }
IT(rk,reverse_iterator,K*) IT(rc,reverse_iterator,CK) IT(mv,move_iterator,K*)
H(K*) rk_make (K* p) { return make_reverse_iterator (p).base(); }
H(K*) mv_make (K* p) { return make_move_iterator (p).base(); }
// index iterators: the index container is walked, the base container designated
typedef const uint32_t* X;
typedef index_iterate<K*,X> Ix;
H(K*) ix_deref (K* b, X p) { return *index_iterator (b, p); }
H(K*) ix_index (K* b, X p, size_t n) { return index_iterator (b, p)[n]; }
H(X) ix_base (K* b, X p) { return Ix (b, p).base(); }
H(X) ix_inc (K* b, X p) { Ix i (b, p); Ix& r = ++i; return &r == &i ? i.base() : nullptr; }
H(X) ix_dec (K* b, X p) { Ix i (b, p); Ix& r = --i; return &r == &i ? i.base() : nullptr; }
H(X) ix_pinc (K* b, X p, X& o) { Ix i (b, p); Ix r = i++; o = r.base(); return i.base(); }
H(X) ix_pdec (K* b, X p, X& o) { Ix i (b, p); Ix r = i--; o = r.base(); return i.base(); }
H(X) ix_addeq (K* b, X p, size_t n) { Ix i (b, p); Ix& r = (i += n); return &r == &i ? i.base() : nullptr; }
H(X) ix_subeq (K* b, X p, size_t n) { Ix i (b, p); Ix& r = (i -= n); return &r == &i ? i.base() : nullptr; }
H(X) ix_add (K* b, X p, size_t n) { const Ix i (b, p); return (i + n).base(); }
H(X) ix_sub (K* b, X p, size_t n) { const Ix i (b, p); return (i - n).base(); }
H(ptrdiff_t) ix_diff (K* b, X p, X q) { Ix i (b, p), j (b, q); return i - j; }
H(bool) ix_eq (K* b, X p, X q) { Ix i (b, p), j (b, q); return i == j; }
H(bool) ix_ne (K* b, X p, X q) { Ix i (b, p), j (b, q); return i != j; }
H(bool) ix_lt (K* b, X p, X q) { Ix i (b, p), j (b, q); return i < j; }
H(K*) ix_addderef (K* b, X p, size_t n) { return *(index_iterator (b, p) + n); }
// free functions
H(K*) fr_advance (K* p, ptrdiff_t n) { K* q = p; K* r = advance (q, n); return r == q ? r : nullptr; }
H(K*) fr_advance_ptr (K* p, ptrdiff_t n) { return advance_ptr (p, n); }
H(void*) fr_advance_void (void* p, ptrdiff_t n) { void* q = p; void* r = advance (q, n); return r == q ? r : nullptr; }
H(const void*) fr_advance_cvoid (const void* p, ptrdiff_t n) { const void* q = p; const void* r = advance (q, n); return r == q ? r : nullptr; }
H(ptrdiff_t) fr_distance (K* p, K* q) { return distance (p, q); }
H(ptrdiff_t) fr_distance_vv (void* p, void* q) { return distance (p, q); }
H(ptrdiff_t) fr_distance_cv (const void* p, void* q) { return distance (p, q); }
H(ptrdiff_t) fr_distance_vc (void* p, const void* q) { return distance (p, q); }
H(ptrdiff_t) fr_distance_cc (const void* p, const void* q) { return distance (p, q); }
H(size_t) fr_abs (K* p, K* q) { return abs_distance (p, q); }
// containers
typedef vector<K>& V;
typedef const vector<K>& CV;
H(const K*) ct_rbegin (V v) { return v.rbegin().base(); }
H(const K*) ct_rend (V v) { return v.rend().base(); }
H(const K*) ct_crbegin (CV v) { return v.rbegin().base(); }
H(const K*) ct_crend (CV v) { return v.rend().base(); }
H(const K*) ct_begin (V v) { return begin (v); }
H(const K*) ct_end (V v) { return end (v); }
H(const K*) ct_cbegin (CV v) { return cbegin (v); }
H(const K*) ct_cend (CV v) { return cend (v); }
H(const K*) ct_frbegin (V v) { return rbegin (v).base(); }
H(const K*) ct_frend (V v) { return rend (v).base(); }
H(const K*) ct_fcrbegin (CV v) { return crbegin (v).base(); }
H(const K*) ct_fcrend (CV v) { return crend (v).base(); }
H(size_t) ct_size (CV v) { return size (v); }
H(bool) ct_empty (CV v) { return empty (v); }
H(const K*) ct_data (CV v) { return data (v); }
typedef K A5 [5];
H(const K*) ar_begin (A5& a) { return begin (a); }
H(const K*) ar_end (A5& a) { return end (a); }
H(const K*) ar_vend (A5& a) { return VectorEnd (a); }
H(size_t) ar_size (A5& a) { return size (a) + (VectorSize (a) == size (a) ? 0 : 100); }
H(const K*) ar_data (A5& a) { return data (a); }
H(K*) ib_ii (V a, V b, size_t i) { return ibyi (a.begin() + i, a, b); }
H(const K*) ib_cc (CV a, CV b, size_t i) { return ibyi (a.begin() + i, a, b); }
H(K*) ct_unconst (V a, size_t i) { vector<K>::const_iterator c = a.begin() + i; return unconst (c, a); }
// inserters
H(void) in_back (V v, CK x) { auto i = back_inserter (v); *i++ = *x; }
H(void) in_back2 (V v, CK x, CK y) { auto i = back_inserter (v); *i++ = *x; *i = *y; ++i; }
H(void) in_at (V v, size_t p, CK x) { auto i = inserter (v, v.begin() + p); *i = *x; }
H(void) in_at2 (V v, size_t p, CK x, CK y) { auto i = inserter (v, v.begin() + p); *i++ = *x; *i = *y; ++i; }
H(void) in_at2p (V v, size_t p, CK x, CK y) { auto i = inserter (v, v.begin() + p); *i = *x; ++i; *i = *y; }
H(void) in_front (list<K>& v, CK x) { auto i = front_inserter (v); *i++ = *x; }
H(void) in_front2 (list<K>& v, CK x, CK y) { auto i = front_inserter (v); *i = *x; ++i; *i = *y; }
// adaptors driving an algorithm
H(K*) al_rcopy (CK f, CK l, K* r) { return copy (reverse_iterator<CK> (l), reverse_iterator<CK> (f), r); }
H(K*) al_wcopy (CK f, CK l, K* r) { return copy (f, l, reverse_iterator<K*> (r)).base(); }
H(CK) al_rfind (CK f, CK l, CK v) { return find (reverse_iterator<CK> (l), reverse_iterator<CK> (f), *v).base(); }
H(K*) al_mcopy (K* f, K* l, K* r) { return copy (make_move_iterator (f), make_move_iterator (l), r); }
H(void) al_backcopy (V v, CK f, CK l) { copy (f, l, back_inserter (v)); }
