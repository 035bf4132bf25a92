// vector of plain elements (K) and of elements with a lifetime (Q)
#include "q.h"
#define VEC(x,T) \
typedef vector<T> V##x; typedef V##x& R##x; typedef const V##x& C##x; typedef const T* I##x; \
H(void) v##x##_ctor (void* m) { new (m) V##x; } \
H(void) v##x##_ctor_n (void* m, size_t n) { new (m) V##x (n); } \
H(void) v##x##_ctor_nv (void* m, size_t n, const T& v) { new (m) V##x (n, v); } \
H(void) v##x##_ctor_v (void* m, C##x v) { new (m) V##x (v); } \
H(void) v##x##_ctor_ii (void* m, I##x a, I##x b) { new (m) V##x (a, b); } \
H(void) v##x##_ctor_move (void* m, R##x v) { new (m) V##x (static_cast<V##x&&> (v)); } \
H(void) v##x##_dtor (R##x m) { m.~V##x(); } \
H(void) v##x##_eq (R##x m, C##x v) { m = v; } \
H(void) v##x##_eq_move (R##x m, R##x v) { m = static_cast<V##x&&> (v); } \
H(void) v##x##_reserve (R##x m, size_t n, bool x) { m.reserve (n, x); } \
H(void) v##x##_resize (R##x m, size_t n) { m.resize (n); } \
H(void) v##x##_resize_v (R##x m, size_t n, const T& v) { m.resize (n, v); } \
H(void) v##x##_push_back (R##x m, const T& v) { m.push_back (v); } \
H(void) v##x##_push_back0 (R##x m) { m.push_back(); } \
H(void) v##x##_push_backm (R##x m, T& v) { m.push_back (static_cast<T&&> (v)); } \
H(void) v##x##_emplace_back (R##x m, int v) { m.emplace_back (T{v}); } \
H(void) v##x##_pop_back (R##x m) { m.pop_back(); } \
H(void) v##x##_clear (R##x m) { m.clear(); } \
H(void) v##x##_shrink (R##x m) { m.shrink_to_fit(); } \
H(void) v##x##_deallocate (R##x m) { m.deallocate(); } \
H(void) v##x##_assign_ii (R##x m, I##x a, I##x b) { m.assign (a, b); } \
H(void) v##x##_assign_nv (R##x m, size_t n, const T& v) { m.assign (n, v); } \
H(void) v##x##_swap (R##x m, R##x v) { m.swap (v); } \
H(void) v##x##_uswap (R##x m, R##x v) { ::ustl::swap (m, v); } \
H(T*) v##x##_insert (R##x m, I##x p, const T& v) { return m.insert (p, v); } \
H(T*) v##x##_insertm (R##x m, I##x p, T& v) { return m.insert (p, static_cast<T&&> (v)); } \
H(T*) v##x##_insert_n (R##x m, I##x p, size_t n, const T& v) { return m.insert (p, n, v); } \
H(T*) v##x##_insert_ii (R##x m, I##x p, I##x a, I##x b) { return m.insert (p, a, b); } \
H(T*) v##x##_emplace (R##x m, I##x p, int v) { return m.emplace (p, T{v}); } \
H(T*) v##x##_erase_n (R##x m, I##x p, size_t n) { return m.erase (p, n); } \
H(T*) v##x##_erase (R##x m, I##x p) { return m.erase (p); } \
H(T*) v##x##_erase_ii (R##x m, I##x a, I##x b) { return m.erase (a, b); } \
H(size_t) v##x##_size (C##x m) { return m.size(); } \
H(size_t) v##x##_capacity (C##x m) { return m.capacity(); } \
H(size_t) v##x##_max_size (C##x m) { return m.max_size(); } \
H(bool) v##x##_empty (C##x m) { return m.empty(); } \
H(const T*) v##x##_begin (C##x m) { return m.begin(); } \
H(T*) v##x##_wbegin (R##x m) { return m.begin(); } \
H(const T*) v##x##_cbegin (C##x m) { return m.cbegin(); } \
H(const T*) v##x##_end (C##x m) { return m.end(); } \
H(T*) v##x##_wend (R##x m) { return m.end(); } \
H(const T*) v##x##_cend (C##x m) { return m.cend(); } \
H(const T*) v##x##_rbegin (C##x m) { return m.rbegin().base(); } \
H(const T*) v##x##_rend (C##x m) { return m.rend().base(); } \
H(const T*) v##x##_crbegin (C##x m) { return m.crbegin().base(); } \
H(const T*) v##x##_crend (C##x m) { return m.crend().base(); } \
H(T*) v##x##_wrbegin (R##x m) { return m.rbegin().base(); } \
H(T*) v##x##_wrend (R##x m) { return m.rend().base(); } \
H(const T*) v##x##_data (C##x m) { return m.data(); } \
H(const T*) v##x##_cdata (C##x m) { return m.cdata(); } \
H(T*) v##x##_wdata (R##x m) { return m.data(); } \
H(const T*) v##x##_at (C##x m, size_t i) { return &m.at(i); } \
H(T*) v##x##_wat (R##x m, size_t i) { return &m.at(i); } \
H(const T*) v##x##_index (C##x m, size_t i) { return &m[i]; } \
H(T*) v##x##_windex (R##x m, size_t i) { return &m[i]; } \
H(const T*) v##x##_iat (C##x m, size_t i) { return m.iat(i); } \
H(T*) v##x##_wiat (R##x m, size_t i) { return m.iat(i); } \
H(const T*) v##x##_front (C##x m) { return &m.front(); } \
H(T*) v##x##_wfront (R##x m) { return &m.front(); } \
H(const T*) v##x##_back (C##x m) { return &m.back(); } \
H(T*) v##x##_wback (R##x m) { return &m.back(); }
VEC(k,K)
VEC(q,Q)
H(bool) vk_opeq (Ck m, Ck v) { return m == v; }
H(bool) vk_is_linked (Ck m) { return m.is_linked(); }
H(void) vk_link_pn (Rk m, const K* p, size_t n) { m.link (p, n); }
H(void) vk_link_wpn (Rk m, K* p, size_t n) { m.link (p, n); }
H(void) vk_link_v (Rk m, Ck v) { m.link (v); }
H(void) vk_link_wv (Rk m, Rk v) { m.link (v); }
H(void) vk_link_ii (Rk m, const K* a, const K* b) { m.link (a, b); }
H(void) vk_link_wii (Rk m, K* a, K* b) { m.link (a, b); }
H(void) vk_manage (Rk m, K* p, size_t n) { m.manage (p, n); }
H(void) vk_unlink (Rk m) { m.unlink(); }
H(void) vk_copy_link (Rk m) { m.copy_link(); }
H(void) vk_ctor_il (void* m, const K& a, const K& b, const K& c) { new (m) Vk ({a, b, c}); }
H(K*) vk_insert_il (Rk m, const K* p, const K& a, const K& b) { return m.insert (p, {a, b}); }
H(void) vk_to_cml (void* r, Ck m) { new (r) cmemlink (cmemlink (m)); }
H(void) vk_to_ml (void* r, Rk m) { new (r) memlink (m.operator memlink()); }
// container helpers (uctralgo.h, ualgo.h) on vectors
H(void) vk_remove (Rk m, const K& v) { ::ustl::remove (m, v); }
H(void) vk_remove_if (Rk m) { ::ustl::remove_if (m, Pr()); }
H(void) vk_unique (Rk m) { ::ustl::unique (m); }
